"""C20: seeded training is reproducible.

Which random number generators still depend on the history of the process is followed as a typestate through every training
function; each draw (creating a model, going through the loader, a forward pass, drawing functions) is an obligation.
"""
from __future__ import annotations

import ast
import itertools
import re

from ..drive import functions
from ..terms import T, alts, const, is_const, show, sym
from .c14 import ARGS, CLI, NANO, arg, known, modules_used, table_names, train_calls, values
from .c15 import subterms
from .c19 import LOADER, Modes, closure, entries, params

R_FIRST = "seeded-before-the-first-draw"
R_GIVEN = "seeded-with-the-given-seed"
R_FRESH = "no-generator-without-a-seed"
R_RETRAIN = "every-retrained-model-has-a-seed-of-its-own"
R_SUBSET = "subsets-are-drawn-from-the-seed"
R_CLI = "command-line-seed-reaches-the-training"
R_NANO = "nanogpt-script-is-seeded-first"

SEED = sym("seed")
LIBS = ("torch", "numpy", "random")
SEEDERS = {"torch.manual_seed": "torch", "torch.random.manual_seed": "torch", "numpy.random.seed": "numpy", "random.seed": "random"}
RESEED = {"torch.seed": "torch", "torch.random.seed": "torch", "torch.initial_seed": None}
DRAWS = (
    (re.compile(r"^torch\.(rand|randn|randint|randperm|normal|bernoulli|multinomial|poisson|rand_like|randn_like|randint_like|empty_like_random)$"), "torch"),
    (re.compile(r"^torch\.nn\.init\.\w+"), "torch"),
    (re.compile(r"^torch\.nn\.(Linear|Conv\w+|Embedding\w*|LSTM|GRU|RNN|Transformer\w*|Bilinear|MultiheadAttention)$"), "torch"),
    (re.compile(r"^numpy\.random\.(?!seed$|default_rng$|RandomState$|Generator$|SeedSequence$|PCG64$|get_state$|set_state$)\w+$"), "numpy"),
    (re.compile(r"^random\.(?!seed$|Random$|SystemRandom$|getstate$|setstate$)\w+$"), "random"),
)
MAKE_GENERATOR = re.compile(r"^(numpy\.random\.(default_rng|RandomState|SeedSequence)|random\.Random)$")
ENTROPY = re.compile(r"^(random\.SystemRandom|os\.urandom|secrets\.\w+|uuid\.uuid[14]|time\.\w+|os\.getpid|builtins\.(id|hash)|datetime\.\S+)$")


def name_of(e):
    """Full name of an external function that is called."""
    f = e.d.get("func")
    if f is not None and f.op == "ext":
        return f.args[0]
    return str(e.callee)


class Generators(Modes):
    """Typestate: (library, 'history') while its generator depends on what ran before."""

    def __call__(self, i, e):
        if e.kind != "call":
            return Modes.__call__(self, i, e)
        n = name_of(e)
        if n in SEEDERS:
            a = given(e)
            lib = SEEDERS[n]
            if a is None or is_const(a, None) or entropy(a):
                return ((lib, "history"),), ((lib, "other"),)
            if SEED in closure_of(i, a):
                return (), ((lib, "history"), (lib, "other"))
            return ((lib, "other"),), ((lib, "history"),)
        if RESEED.get(n):
            return ((RESEED[n], "history"),), ()
        return Modes.__call__(self, i, e)


class Holder:
    def __init__(self, i):
        self.i = i


def closure_of(i, t):
    return closure(Holder(i), t)


def given(e):
    return e.args[0] if e.args else next((v for _, v in e.d["kwargs"]), None)


def entropy(t):
    return any(y.op == "call" and y.args[0].op == "ext" and ENTROPY.match(y.args[0].args[0]) for y in subterms(t))


def run(c):
    c.rule(R_FIRST, "torch's generator is seeded before a model is created, and all three generators before the loader is gone through")
    c.rule(R_GIVEN, "the generators are seeded with the seed that is given, and stay so")
    c.rule(R_FRESH, "no generator is made without a seed, or seeded from the clock or the operating system, in seeded training")
    c.rule(R_RETRAIN, "the seed that retraining passes to the training function is made of the given seed, and differs between the models of one subset")
    c.rule(R_SUBSET, "the samples of a subset are drawn by a generator seeded with the given seed and the number of the subset")
    c.rule(R_CLI, "the seed of the command line is part of the seed that the training function gets")
    c.rule(R_NANO, "the nanoGPT script seeds the generators before it draws or creates the model, and gets its seed from the retraining command")
    ev, tr = entries(c)
    for f in sorted(tr, key=lambda x: x.qual):
        if "seed" in params(f):
            with c.guard(f.qual):
                training(c, f)
    with c.guard("retrain"):
        retrain(c)
    with c.guard("command line"):
        cli(c)
    with c.guard("nanogpt"):
        nano(c)
    with c.guard("nanogpt script"):
        script(c)
    c.need(R_FIRST, 4)


def training(c, f):
    gs = Generators(c.repo)
    r = functions(c.repo, tables=True, resource=gs, nonnull=lambda t: True if t is SEED else None)
    bound = {p: LOADER if p.endswith("loader") else SEED if p == "seed" else None for p in params(f)}
    r.i.S.held = r.i.S.held | {(lib, "history") for lib in LIBS}
    r.fcall(f.qual, "f", **{p: v for p, v in bound.items() if v is not None})
    c.functions |= r.i.inlined
    c.scenarios.append(f.qual)
    seen = {}
    for e in r.events("f"):
        for what, libs in draws(c, r, gs, e):
            for lib in libs:
                state = {k for x, k in e.held if x == lib}
                key = (what, lib)
                if "history" in state:
                    if seen.setdefault(key, "bad") == "bad":
                        c.bad(R_FIRST, f"{f.name}:{lib}", f"{f.name} {what} before {seed_name(lib)} is seeded", e.loc)
                        seen[key] = "told"
                elif "other" in state:
                    if seen.setdefault(key, "bad") == "bad":
                        c.bad(R_GIVEN, f"{f.name}:{lib}", f"{f.name} {what} after {seed_name(lib)} has been seeded with something else than the given seed", e.loc)
                        seen[key] = "told"
                elif key not in seen:
                    seen[key] = "ok"
                    c.ok(R_FIRST, f"{f.name}:{lib}", what)
                    c.ok(R_GIVEN, f"{f.name}:{lib}", what)
        fresh(c, r, e, f.name)
    if not seen:
        c.unknown(R_FIRST, f.name, "no draw found")


def seed_name(lib):
    return {"torch": "torch's generator", "numpy": "numpy's generator", "random": "the generator of the module random"}[lib]


def draws(c, r, gs, e):
    """(what happens, libraries drawn from) of an event."""
    if e.kind == "new" and e.d.get("obj") is not None and gs.module(r.i, e.d["obj"]) and not is_loss(e):
        yield "creates the model", ("torch",)
    elif e.kind == "iter" and any(LOADER in subterms(x) for x in (e.d["iterable"],)):
        yield "goes through the loader", LIBS
    elif e.kind == "call":
        n = name_of(e)
        res = e.d.get("result")
        if res is not None and (res, "made") in gs.after(r, e):
            yield "creates the model", ("torch",)
        for rx, lib in DRAWS:
            if rx.match(n) and not generator_given(r, e):
                yield f"calls {n}", (lib,)


def is_loss(e):
    return "loss" in str(getattr(e.d.get("cls"), "name", "")).lower()


def generator_given(r, e):
    g = dict(e.d["kwargs"]).get("generator")
    return g is not None and not is_const(g, None)


def after(self, r, e):
    from .c19 import made
    res = e.d.get("result")
    return {(res, "made")} if res is not None and res.op == "call" and made(e) else set()


Generators.after = after


def fresh(c, r, e, name):
    if e.kind != "call":
        return
    n = name_of(e)
    if MAKE_GENERATOR.match(n):
        a = given(e)
        if a is None or is_const(a, None):
            c.bad(R_FRESH, f"{name}:{n.rsplit('.', 1)[-1]}", f"{name} makes a generator without a seed", e.loc)
        elif entropy(a):
            c.bad(R_FRESH, f"{name}:{n.rsplit('.', 1)[-1]}", f"{name} seeds a generator with {show(a, 3)}", e.loc)
        else:
            c.ok(R_FRESH, f"{name}:{n.rsplit('.', 1)[-1]}", show(a, 3)[:80])
    elif n in ("random.SystemRandom", "os.urandom") or n.startswith("secrets."):
        c.bad(R_FRESH, f"{name}:{n}", f"{name} draws from the operating system", e.loc)
    elif n in SEEDERS and given(e) is not None and entropy(given(e)):
        c.bad(R_FRESH, f"{name}:{n}", f"{name} seeds {seed_name(SEEDERS[n])} with {show(given(e), 3)}", e.loc)
    elif n.endswith(".seed") and e.d.get("recv") is not None and not e.args and any(
            y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] == "torch.Generator" for y in subterms(e.d["recv"])):
        c.bad(R_FRESH, f"{name}:Generator.seed", f"{name} seeds a generator at random", e.loc)
    elif n in RESEED and RESEED[n]:
        c.bad(R_FRESH, f"{name}:{n}", f"{name} seeds {seed_name(RESEED[n])} at random", e.loc)


# ---------------------------------------------------------------- retraining

def retrain_functions(c):
    return [f for f in c.repo.all_functions() if f.cls is None and f.qual == f"{f.module.name}.{f.name}" and f.module.name.startswith("dattri.model_util")
            and {"train_func", "seed"} <= set(params(f)) and not f.name.startswith("_")]


def retrain(c):
    train = sym("train_func")
    for f in retrain_functions(c):
        with c.guard(f.qual):
            r = functions(c.repo, nonnull=lambda t: True if t is SEED else None)
            r.fcall(f.qual, "f", seed=SEED, train_func=train, dataloader=LOADER)
            c.functions |= r.i.inlined
            c.scenarios.append(f.qual)
            calls = [e for e in r.events("f", "call") if e.d.get("func") is train]
            if not calls:
                c.unknown(R_RETRAIN, f.name, "the training function is not called")
            for e in calls:
                s = seed_of(r, e)
                if s is None:
                    c.bad(R_RETRAIN, f.name, f"{f.name} calls the training function without a seed", e.loc)
                    continue
                terms = closure_of(r.i, s)
                if SEED not in terms or entropy(s):
                    c.bad(R_RETRAIN, f.name, f"{f.name} trains with the seed {show(s, 4)[:80]}, which is not made of the seed it is given", e.loc)
                    continue
                if any(is_const(a, None) for a in alts(s)):
                    c.bad(R_RETRAIN, f.name, f"{f.name} can train without the seed it is given", e.loc)
                    continue
                # loops whose rounds differ in nothing but the seed
                extra = [lid for lid in e.loops if not depends(r, lid, [x for x in e.args])]
                lost = [lid for lid in extra if not uses_loop(r, s, lid)]
                if lost:
                    c.bad(R_RETRAIN, f"{f.name}:runs", f"{f.name} trains the models of one subset with the same seed, so that they are the same model", e.loc)
                elif extra and collides(r, s, e, extra):
                    c.bad(R_RETRAIN, f"{f.name}:distinct", f"{f.name} gives models of different subsets the same seed: {show(s, 5)[:100]}", e.loc)
                else:
                    c.ok(R_RETRAIN, f.name, show(s, 5)[:100])
            for e in r.events("f"):
                drawn(c, r, e, f, calls)
                if e.kind == "call" and not conditional_on_missing_seed(e):
                    fresh(c, r, e, f.name)


def seed_of(r, e):
    """The seed keyword that reaches the training function."""
    for n, v in e.d["kwargs"]:
        if n == "seed":
            return v
    for n, v in e.d["kwargs"]:
        for x in alts(v):
            if n in (None, "**") and x.op == "obj":
                h = r.i.S.heap.get(x.args[0], {})
                if ("k", "seed") in h:
                    return h[("k", "seed")]
                for how, y in r.i.contents.get(x.args[0], ()):
                    if how == "val":
                        return y
    return (e.d.get("bound") or {}).get("seed")


def uses_loop(r, t, lid):
    return any(y.op in ("idx", "elem", "ind", "psum", "prev") and y.args[-1] == lid for y in closure_of(r.i, t)) or \
        any(y.op == "elem" and same_loop(r, y, lid) for y in closure_of(r.i, t))


def same_loop(r, y, lid):
    return r.i.loopinfo.get(lid, {}).get("iter") is y.args[0]


def depends(r, lid, terms):
    """Is the value different in each round of a loop?"""
    return any(uses_loop(r, x, lid) or made_in(r, x, lid) for x in terms)


def made_in(r, t, lid):
    """Does the value hold an object that is made anew, or filled under a condition that changes, in each round?"""
    for y in closure_of(r.i, t):
        if y.op == "obj":
            o = r.i.objs[y.args[0]]
            if lid in (o.get("loops") or ()):
                return True
            for k in o.get("conds") or ():
                if any(uses_loop(r, z, lid) for z in flat_terms(k)):
                    return True
            if any(isinstance(z, T) and uses_loop(r, z, lid) for _, z in r.i.contents.get(y.args[0], ())):
                return True
    return False


def flat_terms(k):
    if isinstance(k, T):
        yield k
    elif isinstance(k, (tuple, list, frozenset)):
        for x in k:
            yield from flat_terms(x)


def collides(r, s, e, extra):
    """seed + a * i + b * j where a is a number: subset i, run j and another subset and run get the same seed."""
    ls = [lid for lid in e.loops if uses_loop(r, s, lid)]
    if len(ls) < 2:
        return False
    from .c11 import lin
    for a in alts(s):
        for runs in (2, 3, 4):
            seen = {}
            for x in range(4):
                for y in range(runs):
                    k = value(r, a, {**{lid: x for lid in ls}, extra[-1]: y}, runs, extra[-1])
                    if k is None:
                        break
                    if seen.setdefault(k, (x, y)) != (x, y):
                        return True
        l = lin(a)
        inner = extra[-1]
        outer = [x for x in ls if x != inner]
        plain = [t for t in l if t != 1 and isinstance(t, T) and t.op in ("idx", "elem", "ind") and t.args[-1] in outer]
        plain_in = [t for t in l if t != 1 and isinstance(t, T) and t.op in ("idx", "elem", "ind") and t.args[-1] == inner]
        if plain and plain_in and all(abs(l[t]) == abs(l[u]) for t in plain for u in plain_in):
            return True
    return False


def value(r, t, rounds, runs, inner, depth=0):
    """The value of an integer expression over loop counters; the inner loop has ``runs`` rounds."""
    if not isinstance(t, T) or depth > 20:
        return None
    go = lambda x: value(r, x, rounds, runs, inner, depth + 1)
    if t.op == "const":
        return t.args[0] if isinstance(t.args[0], int) else None
    if t is SEED:
        return 1000
    if t.op == "sym":
        it = r.i.loopinfo.get(inner, {}).get("iter")
        src = r.i.iter_source(it) if isinstance(it, T) else None
        if src is not None and src.op == "call" and src.args[0].op == "ext" and src.args[0].args[0] == "builtins.range" and len(src.args[1]) == 1 and src.args[1][0] is t:
            return runs
        return 0 if t.args[0] == "start_id" else None
    if t.op in ("idx", "ind"):
        return rounds.get(t.args[-1])
    if t.op == "elem" and t.args[-1] in rounds:
        src = r.i.iter_source(t.args[0])
        if src.op == "call" and src.args[0].op == "ext" and src.args[0].args[0] == "builtins.range":
            lo = go(src.args[1][0]) if len(src.args[1]) == 2 else 0 if len(src.args[1]) == 1 else None
            return None if lo is None else lo + rounds[t.args[-1]]
        return None
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.int", "builtins.abs") and len(t.args[1]) == 1:
        return go(t.args[1][0])
    if t.op in ("phi", "mix"):
        vs = {go(x) for x in t.args}
        return vs.pop() if len(vs) == 1 else None
    if t.op == "un" and t.args[0] == "-":
        v = go(t.args[1])
        return None if v is None else -v
    if t.op == "bin":
        a, b = go(t.args[1]), go(t.args[2])
        if a is None or b is None:
            return None
        if t.args[0] in ("//", "%") and b == 0:
            return None
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b, "^": lambda: a ^ b}.get(t.args[0], lambda: None)()
    return None


def conditional_on_missing_seed(e):
    """On a path where no seed was given."""
    return any(SEED in subterms(p[0]) and p[0].op in ("cmp", "is") and not p[1] for p in e.pc)


SUBSET_DRAWS = ("choice", "permutation", "shuffle", "integers", "sample", "randperm", "random", "permuted", "randint", "choices")


def drawn(c, r, e, f, calls):
    """Numbers drawn while retraining come from a generator seeded with the given seed (and the subset's number)."""
    if e.kind != "call":
        return
    n = name_of(e)
    for rx, lib in DRAWS:
        if rx.match(n) and e.fn.startswith("dattri.model_util.retrain") and not n.startswith("torch.nn"):
            g = dict(e.d["kwargs"]).get("generator")
            if g is not None and SEED in closure_of(r.i, g):
                continue
            if is_seed_default(e):
                continue
            c.bad(R_SUBSET, f"{f.name}:{n}", f"{f.name} draws with {n}, whose results depend on what was drawn before", e.loc)
    recv = e.d.get("recv")
    if recv is None or str(e.callee).lstrip(".") not in SUBSET_DRAWS:
        return
    gens = [y for y in closure_of(r.i, recv) if y.op == "call" and y.args[0].op == "ext" and MAKE_GENERATOR.match(y.args[0].args[0])]
    if not gens:
        return
    out = [lid for lid in e.loops]
    current = alts(recv)
    for g in current:
        made = [y for y in closure_of(r.i, g) if y in gens]
        arguments = [a for y in made for a in tuple(y.args[1]) + tuple(v for _, v in y.args[2])]
        if not arguments or not all(SEED in closure_of(r.i, a) for a in arguments):
            c.bad(R_SUBSET, f.name, f"{f.name} draws a subset with a generator that is not seeded with the given seed", e.loc)
            return
    if out and not all(any(uses_loop(r, a, out[0]) for a in tuple(y.args[1]) + tuple(v for _, v in y.args[2])) for y in gens):
        c.bad(R_SUBSET, f"{f.name}:index", f"{f.name} draws the subsets one after the other from one generator: what subset a part of the retraining gets "
              "depends on where the part starts", e.loc)
        return
    c.ok(R_SUBSET, f.name, show(recv, 4)[:100])


def is_seed_default(e):
    """seed = random.getrandbits(...) where no seed is given."""
    return any(p[0] is not None and SEED in subterms(p[0]) for p in e.pc)


# ---------------------------------------------------------------- command lines

def cli(c):
    mods = modules_used(c, CLI)
    r = known(c, mods)
    r.fcall(CLI, "main")
    c.functions |= r.i.inlined
    tables = table_names(r)
    choices = {}
    for e in r.events("main", "call"):
        if e.callee == ".add_argument" and e.args and e.args[0].op == "const":
            kw = dict(e.d["kwargs"])
            dest = kw["dest"].args[0] if "dest" in kw else next((a.args[0] for a in e.args if str(a.args[0]).startswith("--")), e.args[0].args[0])
            vs = values(r, kw["choices"]) if "choices" in kw else None
            if vs is not None:
                choices[dest.lstrip("-").replace("-", "_")] = vs
    used = sorted({n for e in r.events("main", "subload") if e.base in tables for n in choices if arg(n) in subterms(e.index)})
    if not used:
        c.unknown(R_CLI, "dattri_retrain", "no table is looked up by an option with choices")
    for combo in itertools.product(*[choices[n] for n in used]):
        vals = dict(zip(used, combo))
        seed = arg("seed")
        q = known(c, mods, subst={**{arg(n): const(v) for n, v in vals.items()}, arg("extra_param"): const(None)}, nonnull=lambda t: True if t is seed else None)
        q.fcall(CLI, "main")
        c.functions |= q.i.inlined
        retrained = [e for e in q.events("main", "call") if e.callee.startswith("dattri.model_util.retrain.retrain_")]
        for e in train_calls(q, retrained):
            v = e.bound.get("seed")
            name = f"dattri_retrain:{','.join(map(str, combo))}"
            if "seed" not in params(c.repo.func(e.callee)):
                continue
            if v is None or seed not in closure_of(q.i, v):
                c.bad(R_CLI, f"dattri_retrain:{retrained[0].callee.rsplit('.', 1)[-1]}", f"with {vals}, {e.callee.rsplit('.', 1)[-1]} is called with the seed {show(v, 3) if v is not None else 'left out'}, "
                      "not the one of the command line", e.loc)
            else:
                c.ok(R_CLI, name, show(v, 4)[:80])


def nano(c):
    main = f"{NANO}.main"
    r = known(c, [])
    r.fcall(main, "main")
    c.functions |= r.i.inlined
    call = next((e for e in r.events("main", "call") if e.callee == f"{NANO}.retrain"), None)
    if call is None:
        c.unknown(R_NANO, "dattri_retrain_nanogpt", "no call of retrain")
        return
    v = call.bound.get("seed")
    if v is None or arg("seed") not in subterms(v):
        c.bad(R_NANO, "dattri_retrain_nanogpt:seed", f"the seed of the command line is not passed on ({show(v, 3) if v is not None else 'left out'})", call.loc)
    else:
        c.ok(R_NANO, "dattri_retrain_nanogpt:seed")
    q = known(c, [])
    q.fcall(f"{NANO}.retrain", "f")
    lines = [x for uid in q.i.contents for how, x in q.i.contents[uid] if isinstance(x, T) and x.op == "fstr" and x.args and x.args[0].op == "const"
             and re.match(r"seed\s*=", str(x.args[0].args[0]))]
    where = c.repo.func(f"{NANO}.retrain")
    loc = f"{where.module.rel}:{where.node.lineno}"
    if not lines:
        c.unknown(R_NANO, "retrain:line", "the line with the seed is not found")
    for x in lines:
        terms = closure_of(q.i, x)
        runs = [lid for lid, d in q.i.loopinfo.items() if any(e.kind == "call" and e.callee == "subprocess.run" and lid in e.loops for e in q.events("f"))]
        if SEED not in terms:
            c.bad(R_NANO, "retrain:line", "the seed written into the configuration is not made of the given seed", loc)
        elif runs and not any(y.op in ("idx", "elem", "ind", "psum", "prev", "lv") and len(y.args) > 1 for y in terms):
            c.bad(R_NANO, "retrain:distinct", "all models are trained with the same seed", loc)
        else:
            c.ok(R_NANO, "retrain:line", show(x, 4)[:80])


def script(c):
    """Module-level order in the training script: seeds come before draws and the model."""
    mod = next((m for n, m in c.repo.modules.items() if n.endswith("nanoGPT.train")), None)
    if mod is None:
        c.unknown(R_NANO, "train.py", "not found")
        return
    local = {st.name: st for st in mod.tree.body if isinstance(st, ast.FunctionDef)}

    def external(n):
        parts, x = [], n
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        b = mod.names.get(x.id)
        if b is None:
            return None
        base = {"import": lambda: b[1], "from": lambda: f"{b[1]}.{b[2]}"}.get(b[0], lambda: x.id)()
        return ".".join([str(base)] + parts[::-1])

    def drawing(node, seen):
        """Names of the drawing calls a statement makes."""
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                x = external(n.func)
                if x and any(rx.match(x) for rx, _ in DRAWS):
                    yield x, next(lib for rx, lib in DRAWS if rx.match(x)), n
                elif isinstance(n.func, ast.Name) and n.func.id in local and n.func.id not in seen:
                    for y, lib, _ in drawing(local[n.func.id], seen | {n.func.id}):
                        yield y, lib, n
                elif isinstance(n.func, ast.Name) and n.func.id == "GPT" or isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "GPT":
                    yield "GPT", "torch", n

    seeded, bad, ok = {}, False, 0
    for st in mod.tree.body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            x = external(st.value.func)
            if x in SEEDERS:
                names = {n.id for a in st.value.args for n in ast.walk(a) if isinstance(n, ast.Name)}
                seeded[SEEDERS[x]] = "seed" in names
                if "seed" not in names:
                    bad = True
                    c.bad(R_NANO, f"train.py:{x}", f"the script seeds {seed_name(SEEDERS[x])} with something else than its seed", f"{mod.rel}:{st.lineno}")
                continue
        for x, lib, n in drawing(st, frozenset()):
            if not seeded.get(lib):
                bad = True
                c.bad(R_NANO, f"train.py:{x}", f"the script calls {x} before {seed_name(lib)} is seeded", f"{mod.rel}:{n.lineno}")
            else:
                ok += 1
                c.ok(R_NANO, f"train.py:{x}")
    if not bad and not ok:
        c.unknown(R_NANO, "train.py", "no draw found")
