"""C11: every storage strategy keeps and returns the same values under the same keys."""
from __future__ import annotations

import ast

from ..drive import functions
from ..files import parent, parts, path
from ..interp import Dead
from ..offl import Harness, threads
from ..scen import BLOCK_PKG
from ..terms import FALSE, NONE, TRUE, T, alts, const, show, sym
from .c12 import last
from ..files import Files
from .c22 import subterms

R_ALL = "every-strategy-has-the-whole-interface"
R_MAKE = "strategies-made-from-the-same-arguments"
R_KEY = "stored-and-returned-under-the-same-key"
R_KIND = "kinds-kept-apart"
R_LOAD = "loader-reads-what-was-stored"
R_VAL = "values-stored-unchanged"
R_COLS = "layers-side-by-side"
R_ROWS = "rows-belong-to-their-batch"
R_JOIN = "joined-chunks-keep-their-rows"
R_RANGE = "batch-range-half-open"
R_CLEAR = "clearing-forgets-everything"
R_NUM = "chunk-number-covers-its-batches"

ABC = BLOCK_PKG + "offload.offload.Offload"
KINDS = {
    "train gradients": ("store_gradients", "retrieve_gradients", dict(is_test=FALSE), dict(data_type=const("gradients"), is_test=FALSE)),
    "test gradients": ("store_gradients", "retrieve_gradients", dict(is_test=TRUE), dict(data_type=const("gradients"), is_test=TRUE)),
    "preconditioned gradients": ("store_ifvp", "retrieve_ifvp", {}, dict(data_type=const("ifvp"), is_test=FALSE)),
    "preconditioners": ("store_preconditioner", "retrieve_preconditioner", {}, None),
}
SAME = {"cpu", "to", "contiguous", "clone", "detach", "cuda", "float", "view", "type", "copy", "numpy", "pin_memory"}
ALTER = {"half", "bfloat16", "int", "long", "short", "char", "byte", "bool", "round", "round_", "abs", "abs_", "sqrt", "sign", "neg", "clamp", "clamp_",
         "mul", "mul_", "div", "div_", "add", "add_", "sub", "sub_", "zero_", "relu", "nan_to_num", "nan_to_num_"}
NARROW = ("float16", "half", "bfloat16", "int8", "uint8", "int16", "short", "int32", "int", "int64", "long", "bool", "float8")


def narrow(x):
    """A number format that float32 values do not fit in."""
    if x.op == "const" and isinstance(x.args[0], str):
        return x.args[0].lstrip("<>=") in NARROW or x.args[0] in ("f2", "<f2", "e")
    n = show(x) if x.op in ("attr", "ext", "global", "ref") or True else ""
    return n.startswith(("torch.", "numpy.")) and n.rsplit(".", 1)[-1] in NARROW


B, G = sym("the batch"), sym("the values")


def run(c):
    c.rule(R_ALL, "every strategy implements every abstract method with the same parameters and defaults")
    c.rule(R_MAKE, "the factory passes the same device, layers and directory to whichever strategy is asked for")
    c.rule(R_KEY, "a value is looked up under the key it was stored under")
    c.rule(R_KIND, "train, test and preconditioned gradients and preconditioners are kept in different places")
    c.rule(R_LOAD, "the loader for a kind of data reads the place where that kind is stored")
    c.rule(R_VAL, "a preconditioner is stored and returned as it was given, apart from the device it is on")
    c.rule(R_COLS, "layers are stored next to each other in order, and taken apart at the same columns")
    c.rule(R_ROWS, "the rows noted for a batch are the rows it was copied to, and reading takes the rows noted for that batch")
    c.rule(R_JOIN, "where chunks are joined the rows of a batch move by the rows before them")
    c.rule(R_RANGE, "a range of batches includes its first and excludes its last number")
    c.rule(R_CLEAR, "clearing forgets every place values are stored in")
    c.rule(R_NUM, "the batches of chunk k are those whose number divided by the chunk size is k")
    subs = strategies(c.repo)
    with c.guard("interface"):
        interface(c, subs)
    with c.guard("factory"):
        factory(c, subs)
    for ci in subs:
        with c.guard(ci.name):
            Strategy(c, ci).check()
            c.scenarios.append(ci.name)


def strategies(repo):
    abc = repo.cls(ABC)
    return [ci for ci in repo.all_classes() if ci is not abc and abc in ci.mro(repo) and not any(
        f.is_abstract for n in abc.methods for f in [ci.find(repo, n)] if f is not None)
        or ci is not abc and abc in ci.mro(repo) and not any(o is not ci and ci in o.mro(repo) for o in repo.all_classes())]


def default(f, p):
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return ast.unparse(d[p]) if p in d else None


def interface(c, subs):
    abc = c.repo.cls(ABC)
    for ci in subs:
        for n, f in abc.methods.items():
            g = ci.find(c.repo, n)
            cons = f"{ci.name}.{n}"
            if g is None or g is f and f.is_abstract:
                c.bad(R_ALL, cons, f"{ci.name} has no {n}", ci.qual)
                continue
            ps, qs = f.params, g.params
            k = next((j for j, p in enumerate(ps) if j >= len(qs) or qs[j] != p), None)
            if k is not None and not (g.node.args.kwarg or g.node.args.vararg):
                c.bad(R_ALL, cons, f"{cons} takes {', '.join(qs)} where the interface has {', '.join(ps)}", g.loc())
                continue
            extra = [q for q in qs[len(ps):] if default(g, q) is None]
            diff = [p for p in ps if p in qs and default(f, p) is not None and default(f, p) != default(g, p)]
            if extra:
                c.bad(R_ALL, cons, f"{cons} also needs {', '.join(extra)}", g.loc())
            elif diff:
                c.bad(R_ALL, cons, f"{cons}: the default of {diff[0]} is {default(g, diff[0])}, the interface says {default(f, diff[0])}", g.loc())
            else:
                c.ok(R_ALL, cons)
            c.functions.add(g.qual)


def factory(c, subs):
    f = next((f for f in c.repo.all_functions() if f.qual.startswith(BLOCK_PKG + "offload") and f.cls is None and any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == subs[0].name for n in ast.walk(f.node))), None)
    if f is None:
        for g in c.repo.all_functions():
            if g.qual.startswith(BLOCK_PKG) and g.cls is None and sum(
                    any(isinstance(n, ast.Name) and n.id == s.name for n in ast.walk(g.node)) for s in subs) > 1:
                f = g
    if f is None:
        c.unknown(R_MAKE, "factory", "no function that makes the strategies was recognised")
        return
    r = functions(c.repo, opaque=tuple(s.qual for s in subs))
    r.fcall(f.qual, "f")
    made = {}
    for e in r.events("f"):
        if e.kind == "call" and any(str(e.callee) == s.qual for s in subs):
            s = next(s for s in subs if str(e.callee) == s.qual)
            init = s.find(c.repo, "__init__").params[1:]
            b = dict(zip(init, e.args))
            b.update(dict(e.kwargs or ()))
            made[s.name] = (e, {k: v for k, v in b.items() if k in c.repo.cls(ABC).methods["__init__"].params})
    ref = None
    for n, (e, b) in made.items():
        need = {"device", "layer_names"}
        if not need <= set(b):
            c.bad(R_MAKE, n, f"{n} is made without {', '.join(sorted(need - set(b)))}", e.loc)
            continue
        ref = ref or (n, b)
        diff = [k for k in b if k in ref[1] and b[k] is not ref[1][k]]
        if diff:
            c.bad(R_MAKE, n, f"{n} is made with {diff[0]}={show(b[diff[0]])}, {ref[0]} with {show(ref[1][diff[0]])}", e.loc)
        else:
            c.ok(R_MAKE, n)
    c.functions.add(f.qual)


# ---------------------------------------------------------------- one strategy

def leaves(p):
    """The parts text is put together from."""
    if p.op in ("fstr", "fmt"):
        return [y for x in (p.args if p.op == "fstr" else p.args[:1]) if isinstance(x, T) for y in leaves(x)]
    return [p]


class Strategy:
    def __init__(self, c, ci):
        self.c, self.ci, self.n = c, ci, ci.name
        self.h = Harness(c.repo, ci.qual, init=dict(device=sym("device"), layer_names=sym("layers"), cache_dir=sym("cache_dir"), chunk_size=sym("chunk_size")),
                         loads=True, local_classes=True)
        self.i = self.h.i
        self.F = Files()
        for k in self.h.r.ranges:
            for e in self.h.r.events(k):
                self.F(self.i, e)
        self.places = {v: k for v, (u, k) in self.h.fields().items() if v.op == "obj"}
        for k in self.h.r.ranges:
            for e in self.h.r.events(k):
                if e.kind == "setattr" and e.base is self.h.r.obj and isinstance(e.value, T):
                    for v in alts(e.value):
                        if v.op not in ("const", "sym", "obj", "phi"):
                            self.places.setdefault(v, e.attr)
        self.bound = self.i.repo
        c.functions |= self.i.inlined

    def op(self, name, key, **params):
        f = self.ci.find(self.c.repo, name)
        ps = f.params[1:]
        kw = {}
        free = [B, G]
        for p in ps:
            if p in params:
                kw[p] = params[p]
            elif free and default(f, p) is None:
                kw[p] = free.pop(0)
        self.h.fresh(name, key, **kw)
        return self.h.r.events(key)

    def accesses(self, evs):
        """[(place, key, event)] of containers of the object reached with a key that tells the batch or layer."""
        out = []
        for e in evs:
            if e.kind in ("substore", "subload", "contains", "delitem"):
                k, base = e.d.get("index") if e.kind != "contains" else e.d.get("value"), e.d.get("base")
            elif e.kind == "call" and last(e) in ("get", "pop", "setdefault", "__getitem__", "__setitem__") and e.recv is not None and e.args:
                k, base = e.args[0], e.recv
            else:
                continue
            if not isinstance(k, T) or not isinstance(base, T) or B not in subterms(k):
                continue
            for b in alts(base):
                if b in self.places:
                    out.append((self.places[b], k, e))
        return out

    def files(self, evs, what=("write", "read", "look", "create", "move")):
        return [f for e in evs for f in self.F(self.i, e) if f.what in what]

    def check(self):
        c = self.c
        self.filenotes = {}
        self.kindwriter = self.find_writer()
        where = {}
        for kind, (st, rt, par, load) in KINDS.items():
            sev = self.op(st, "st:" + kind, **par)
            self.noted = self.notes(sev)
            rev = self.op(rt, "rt:" + kind, **par)
            spl, rpl = self.accesses(sev), self.accesses(rev)
            scope = f"{self.n}: {kind}"
            keys = {}
            for p, k, e in spl:
                keys.setdefault(p, set()).add(k)
            stored = {p for p, k, e in spl if e.kind == "substore"}
            sp = self.taskpaths(sev)
            rp = [f for f in self.files(rev, ("read", "look")) if B in subterms(f.path)]
            if not stored and not sp:
                c.unknown(R_KEY, scope, "no place was recognised where the value is stored")
            # looked up where stored
            for p, k, e in rpl:
                if p in keys and k not in keys[p]:
                    c.bad(R_KEY, f"{e.fn}:{p}", f"{scope} are stored under {show(next(iter(keys[p])))} and looked up under {show(k)} in {p}", e.loc)
                elif p in keys:
                    c.ok(R_KEY, f"{scope}:{p}:{e.kind}")
            if stored and not any(p in stored for p, _, _ in rpl) and not (sp and rp):
                c.bad(R_KEY, f"{self.n}:{rt}", f"{scope} are stored in {', '.join(sorted(stored))} but {rt} does not look there under the number given", (rev[0].loc if rev else ""))
            for e in rev:
                if e.kind == "subload" and e.index.op == "const" and isinstance(e.index.args[0], int) and any(self.places.get(b) in stored for b in alts(e.base)):
                    c.bad(R_KEY, f"{e.fn}:constant", f"{scope}: {show(e.index)} is looked up whatever the number given", e.loc)
            for f in rp:
                if sp and not any(f.path is q for q, _ in sp):
                    c.bad(R_KEY, f"{f.e.fn}:file", f"{scope} are stored as {show(sp[0][0])[-60:]} and looked for as {show(f.path)[-60:]}", f.e.loc)
                elif sp:
                    c.ok(R_KEY, f"{scope}:file")
            if sp and not rp and not stored:
                c.bad(R_KEY, f"{self.n}:{rt}", f"{scope} are stored in a file per number but {rt} opens no such file", "")
            labels = self.labels(spl, sp)
            back = self.labels([x for x in rpl if x[0] in keys], [(f.path, f.e) for f in rp])
            where[kind] = labels
            for l in back - labels:
                c.bad(R_KIND, f"{self.n}:{rt}:{l}", f"{scope} are stored as {', '.join(sorted(map(str, labels)))} and read as {l}", rev[0].loc if rev else "")
            if kind == "preconditioners":
                self.values(scope, sev, rev)
            else:
                self.unaltered(scope, sev, rev)
                self.same_file(scope, labels, sev, rev)
            self.rows(scope, sev, rev)
            self.columns(scope, sev, rev)
        self.where = where
        for kind, (st, rt, par, load) in KINDS.items():
            if load is not None:
                self.loader(kind, f"{self.n}: {kind}", load, where[kind])
        kinds = list(where)
        for a in range(len(kinds)):
            for b in range(a + 1, len(kinds)):
                x, y = where[kinds[a]], where[kinds[b]]
                if x & y:
                    c.bad(R_KIND, f"{self.n}:{kinds[a]}/{kinds[b]}", f"{self.n} keeps {kinds[a]} and {kinds[b]} in the same place ({', '.join(map(str, x & y))})", self.ci.qual)
                elif x and y:
                    c.ok(R_KIND, f"{self.n}:{kinds[a]}/{kinds[b]}")
        self.clear(where)
        self.numbers()

    def labels(self, acc, paths):
        """What tells the kinds of data apart: the container, or a constant in its key or in the file's path."""
        out = set()
        for p, k, e in acc:
            ks = {x.args[0] for x in (k.args if k.op == "tuple" else ()) if isinstance(x, T) and x.op == "const" and isinstance(x.args[0], str)}
            out |= {("kind", x) for x in ks} or {("field", p)}
        for p, e in paths:
            out |= {("dir", x) for q in alts(p) for x in parts(parent(q)) if parent(q) is not None} or {("file", x) for x in parts(p)}
        if any(l[0] == "kind" for l in out):
            out = {l for l in out if l[0] == "kind"}
        return out

    def taskpaths(self, evs):
        """Files with the number in their name that are written at once or by a submitted task."""
        out = [(f.path, f.e) for f in self.files(evs, ("write", "move")) if isinstance(f.path, T) and B in subterms(f.path)]
        out += [(f.dst, f.e) for f in self.files(evs, ("move",)) if isinstance(f.dst, T) and B in subterms(f.dst)]
        for e in evs:
            if e.kind == "call" and last(e) == "submit" and len(e.args) > 1:
                for a in list(e.args[1:]) + [v for _, v in e.kwargs or ()]:
                    if isinstance(a, T) and B in subterms(a) and a is not B and G not in subterms(a) and parts(path(a)):
                        out.append((path(a), e))
        return out

    # -------------------------------------------------- single rules
    def values(self, scope, sev, rev):
        c = self.c
        for e in sev:
            v = None
            if e.kind == "substore" and any(b in self.places for b in alts(e.base)):
                v = e.value
            elif e.kind == "call" and (last(e) == "submit" and len(e.args) > 1 or str(e.callee) == "torch.save" and e.args):
                v = e.args[1] if last(e) == "submit" else e.args[0]
            if v is None:
                continue
            bad = [x for x in alts(v) if x is not NONE and self.strip(x) is not G]
            if bad:
                c.bad(R_VAL, f"{e.fn}:value", f"{scope}: what is stored is {show(bad[0])[:80]}, not the value given", e.loc)
            else:
                c.ok(R_VAL, f"{scope}:{e.loc}")

    def unaltered(self, scope, sev, rev):
        """Gradients are moved and joined, not computed with, and keep their precision."""
        c = self.c

        def alters(e):
            n = last(e)
            if e.recv is None:
                return None
            if n in ALTER:
                return n
            if n in ("to", "type", "astype"):
                for a in list(e.args) + [v for _, v in e.kwargs or ()]:
                    for x in alts(a):
                        if narrow(x):
                            return show(x)
            return None
        for how, evs in (("stored", sev), ("returned", rev)):
            for e in evs:
                if e.kind == "call" and (how == "returned" or any(G in subterms(x) for x in self.i.expand(e.recv))
                                         if e.recv is not None else False):
                    n = alters(e)
                    if n is not None and not any(y.op == "const" and y.args[0] == "uint16" or show(y).endswith("bfloat16") for t, _ in e.pc for y in subterms(t)):
                        c.bad(R_VAL, f"{e.fn}:{n}", f"{scope}: values are {how} after {n}, not as they were given", e.loc)
        for e in sev:
            if e.kind != "substore":
                continue
            for v in self.i.expand(e.value):
                for x in subterms(v):
                    if x.op == "bin" and x.args[0] in ("*", "/", "+", "-", "**", "//") and any(self.tensor(y) for y in x.args[1:]):
                        c.bad(R_VAL, f"{e.fn}:{e.loc}", f"{scope}: what is stored is computed from the values given ({show(x)[:60]})", e.loc)
                        break
                    elif x.op == "call" and any(self.tensor(y) for y in x.args[1:] if isinstance(y, T)):
                        c.ok(R_VAL, f"{scope}:{e.loc}")

    def tensor(self, x):
        """One of the tensors given, or a copy of it."""
        x = self.strip(x)
        while x.op in ("elem", "each", "pick", "sub", "item", "zipped") and x.args and isinstance(x.args[0], T):
            x = x.args[0]
            if x is G:
                return True
        return False

    def same_file(self, scope, labels, sev, rev):
        """What a file is written with is what it is read with: directory, number format, shape, notes."""
        c, i = self.c, self.i
        k = next((l[1] for l in labels if l[0] == "kind"), None)
        if k is None or self.kindwriter is None:
            return
        dirs = self.kindwriter(k)
        wev = self.h.r.events(f"c11w:{k}")
        # directory
        read = {}
        bases = {b for d in dirs for b in [parent(d)] if b is not None}
        for f in self.files(rev, ("look", "read")):
            for p in alts(f.path):
                for q in (p, parent(p)):
                    if q is not None and parent(q) in bases:
                        read[q] = f
        if dirs and read:
            if set(read) & dirs:
                c.ok(R_KEY, f"{scope}:directory")
            else:
                q = next(iter(read))
                c.bad(R_KEY, f"{self.n}:{k}:directory", f"{scope} are written to {show(next(iter(dirs)))[-40:]} and looked for in {show(q)[-40:]}", read[q].e.loc)
        # format
        numbers, notes = set(), [n for n in self.filenotes.get(k, ()) if n]
        for e in wev:
            if e.kind == "call" and str(e.callee) in ("numpy.memmap", "numpy.lib.format.open_memmap", "numpy.asarray", "numpy.array"):
                numbers |= {x for x in alts(self.dtype(e)) if x is not None}
        for x in numbers:
            if narrow(x):
                c.bad(R_VAL, f"{self.n}:{k}:number-format", f"{scope} are written as {show(x)}, which does not hold every value given", wev[0].loc)
            elif x.op == "const":
                c.ok(R_VAL, f"{scope}:format:{show(x)}")
        for e in rev:
            if e.kind != "call" or str(e.callee) not in ("numpy.fromfile", "numpy.memmap", "numpy.frombuffer"):
                continue
            d = self.dtype(e)
            for x in alts(d):
                if x is None or not numbers:
                    continue
                if x.op == "const":
                    if {x} != numbers and not {x} >= {y for y in numbers if y.op == "const" and y.args[0] != "uint16"}:
                        c.bad(R_VAL, f"{self.n}:{k}:read-format", f"{scope} are read as {show(x)} but written as {', '.join(sorted(map(show, numbers)))}", e.loc)
                    continue
                key = x.args[1].args[0] if x.op in ("sub", "pick") and x.args[1].op == "const" else None
                if key is None or not notes:
                    continue
                got = [n.get(str(key)) for n in notes]
                if any(g is None for g in got):
                    c.bad(R_VAL, f"{self.n}:{k}:read-format", f"{scope}: the number format is read from {key}, which is not noted", e.loc)
                elif any(set(alts(g)) != numbers for g in got):
                    c.bad(R_VAL, f"{self.n}:{k}:read-format", f"{scope} are written as {', '.join(sorted(map(show, numbers)))} but noted as {show(got[0])[:60]}", e.loc)
                else:
                    c.ok(R_VAL, f"{scope}:read-format")
        # one file per chunk
        chunk = [f for f in self.files(wev, ("write", "create", "move")) if f.path is not None]
        for f in chunk:
            for p in alts(f.path):
                told = leaves(p.args[-1]) if p.op == "join" else leaves(p.args[0].args[-1]) + [y for x in p.args[1:] for y in leaves(x)] if p.op == "fstr" and p.args[0].op == "join" else []
                told = [x for x in told if x.op != "const"]
                if told and all(x.op == "dim" or x.op == "call" and show(x.args[0]) == "builtins.len" for x in told):
                    c.bad(R_KEY, f"{self.n}:{k}:file-name", f"{scope}: the name of a chunk's file tells only how many batches it has, so chunks overwrite each other", f.e.loc)
                elif told:
                    c.ok(R_KEY, f"{scope}:file-name:{f.e.loc}")

    def dtype(self, e):
        d = next((v for n, v in e.kwargs or () if n == "dtype"), e.args[1] if len(e.args) > 1 else None)
        out = None
        for x in alts(d) if isinstance(d, T) else ():
            if x.op == "call" and show(x.args[0]).endswith("numpy.dtype") and len(x.args) > 1:
                ys = [y for y in x.args[1:] if isinstance(y, T)] or [y for a in x.args[1:] if isinstance(a, tuple) for y in a if isinstance(y, T)]
                out = ys[0] if ys else None
            else:
                out = x
        return out if isinstance(out, T) else const(None)

    @staticmethod
    def strip(x):
        while x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in SAME:
            x = x.args[0].args[0]
        return x

    def psum(self, t):
        """(start, step) of a running sum."""
        if t.op in ("ind", "psum"):
            return (t.args[0], t.args[1])
        if t.op == "lv":
            v0, v1 = self.i.lvinfo.get(t, (None, None))
            steps = []
            for x in alts(v1) if isinstance(v1, T) else ():
                if x is t:
                    continue
                if x.op == "bin" and x.args[0] == "+" and t in x.args[1:]:
                    steps.append(x.args[2] if x.args[1] is t else x.args[1])
                else:
                    return None
            if isinstance(v0, T) and len(steps) == 1:
                return (v0, steps[0])
        return None

    def skipped(self, t, step, e, evs):
        """The running sum stays as it is in some rounds of the loop although the step may not be 0."""
        if t.op != "lv":
            return False
        v0, v1 = self.i.lvinfo.get(t, (None, None))
        if not isinstance(v1, T) or not any(x is t for x in alts(v1)):
            return False
        for x in evs:
            if x.kind == "branch" and set(x.loops) & set(e.loops):
                y = x.cond.args[0] if x.cond.op == "not" else x.cond
                if y is step or y.op == "cmp" and step in y.args[1:]:
                    return False      # layers without columns
        return True

    def columns(self, scope, sev, rev):
        """Column ranges are [p, p + width) with p the sum of the widths so far."""
        c = self.c
        for how, evs in (("stored", sev), ("taken apart", rev)):
            for e in evs:
                if e.kind not in ("substore", "subload") or not isinstance(e.index, T):
                    continue
                ix = e.index
                if not (ix.op == "tuple" and len(ix.args) == 2 and ix.args[0].op == "slice" and ix.args[1].op == "slice"):
                    continue
                a, b = ix.args[1].args[0], ix.args[1].args[1]
                if not isinstance(a, T) or not isinstance(b, T) or a.op == "const" and b.op == "const":
                    continue
                p = self.psum(a)
                if p is None:
                    if any(y.op in ("ind", "psum", "idx", "elem") for y in subterms(a)):
                        c.bad(R_COLS, f"{e.fn}:{e.loc}", f"{scope}: a layer's columns start at {show(a)}, not after the layers before it", e.loc)
                    elif e.loops and a.op == "const" and any(y.op in ("elem", "each", "pick", "idx") for y in subterms(b)):
                        c.bad(R_COLS, f"{e.fn}:{e.loc}", f"{scope}: every layer's columns start at {show(a)}", e.loc)
                    else:
                        c.unknown(R_COLS, f"{scope}:{e.loc}", "columns not recognised")
                    continue
                start, step = p
                if self.skipped(a, step, e, evs):
                    c.bad(R_COLS, f"{e.fn}:skipped", f"{scope}: in some cases a layer does not advance the columns by {show(step)}, "
                          "so the layers after it are put into its place", e.loc)
                    continue
                ends = b.op == "bin" and b.args[0] == "+" and (b.args[1] is a and b.args[2] is step or b.args[2] is a and b.args[1] is step)
                zero = all(x.op == "const" and x.args[0] == 0 for x in alts(start))
                if not zero:
                    c.bad(R_COLS, f"{e.fn}:{e.loc}", f"{scope}: the first layer's columns start at {show(start)}", e.loc)
                elif not ends:
                    c.bad(R_COLS, f"{e.fn}:{e.loc}", f"{scope}: a layer's columns end at {show(b)}, which is not where the next layer's start", e.loc)
                else:
                    c.ok(R_COLS, f"{scope}:{how}:{e.loc}")
            for e in evs:
                if e.kind == "call" and str(e.callee) in ("torch.cat", "torch.concat", "torch.hstack", "torch.split") and how == "stored":
                    d = next((v for k, v in e.kwargs or () if k in ("dim", "axis")), e.args[1] if len(e.args) > 1 else None)
                    if last(e) in ("cat", "concat") and any(G in subterms(x) for a in e.args[:1] for x in self.i.expand(a)):
                        good = d is not None and all(x.op == "const" and x.args[0] in (1, -1) for x in alts(d))
                        if good:
                            c.ok(R_COLS, f"{scope}:{how}:{e.loc}")
                        else:
                            c.bad(R_COLS, f"{e.fn}:{e.loc}", f"{scope}: layers are not put next to each other", e.loc)

    def notes(self, sev):
        """Dictionaries holding the batch number, as they are when it has been stored."""
        notes = []
        for e in sev:
            if e.kind == "call" and last(e) == "append" and e.args:
                for x in alts(e.args[0]):
                    if x.op == "obj" and self.i.objs[x.args[0]]["kind"] == "dict":
                        h = self.i.S.heap.get(x.args[0], {})
                        it = {k: v for k, v in self.entries(x)}
                        if any(B in alts(v) for v in it.values()):
                            notes.append((e, it))
        return notes

    def rows(self, scope, sev, rev):
        """Rows written for a batch are the ones noted, rows read are those noted for it."""
        c = self.c
        notes = self.noted
        writes = [e for e in sev if e.kind == "substore" and isinstance(e.index, T) and e.index.op == "slice" and any(
            G in subterms(x) for x in self.i.expand(e.value))]
        for e, it in notes:
            rows = [v for v in it.values() if B not in alts(v)]
            for w in writes:
                a, b = w.index.args[0], w.index.args[1]
                pair = self.ordered(it) or tuple(rows[:2])
                if len(rows) == 2 and (self.covers(pair[0], a) and self.covers(pair[1], b) or self.ordered(it) is None and self.covers(pair[0], b) and self.covers(pair[1], a)):
                    c.ok(R_ROWS, f"{scope}:noted:{e.loc}")
                elif e.loops == w.loops and len(rows) == 2:
                    c.bad(R_ROWS, f"{e.fn}:noted", f"{scope}: the rows noted for a batch ({', '.join(show(x)[:40] for x in rows)}) are not the rows it was copied to ({show(a)[:40]}:{show(b)[:40]})", e.loc)
        # as many rows as the batch has, whichever way the start was found
        for w in writes:
            a, b = w.index.args[0], w.index.args[1]
            if not isinstance(a, T) or not isinstance(b, T) or a in lin(b) or len(alts(a)) + len(alts(b)) < 3:
                continue
            las, lbs = [frozenset(lin(x).items()) for x in alts(a)], [frozenset(lin(x).items()) for x in alts(b)]

            def minus(x, y, s=-1):
                d = dict(x)
                for k, v in y:
                    d[k] = d.get(k, 0) + s * v
                return frozenset((k, v) for k, v in d.items() if v)
            good = any(all(minus(q, n) in las for q in lbs) and all(minus(p, n, 1) in lbs for p in las) for n in {minus(lbs[0], p) for p in las})
            if good:
                c.ok(R_ROWS, f"{scope}:size:{w.loc}")
            elif all(isinstance(k, T) and k.op in ("first", "mix", "attr", "dim", "sub", "lv") or k == 1 for z in las + lbs for k, _ in z):
                c.bad(R_ROWS, f"{w.fn}:size", f"{scope}: depending on how a batch's first row was found, its rows ({show(a)[:60]} to {show(b)[:60]}) are not as many as it has", w.loc)
            else:
                c.unknown(R_ROWS, f"{scope}:size:{w.loc}", "rows not compared")
        # the next batch goes after this one
        for w in writes:
            a, b = w.index.args[0], w.index.args[1]
            if not isinstance(a, T) or not isinstance(b, T):
                continue
            names = {x.args[1] for x in alts(a) if x.op == "attr" and isinstance(x.args[1], str)}
            names |= {x.attr for x in sev if x.kind == "load" and x.fn == w.fn and x.seq < w.seq and isinstance(x.d.get("value"), T) and x.value.op != "const" and set(alts(x.value)) & set(alts(a))}
            later = [x for x in sev if x.kind == "setattr" and x.attr in names and x.seq > w.seq and x.fn == w.fn]
            for x in later:
                if self.covers(x.value, b):
                    c.ok(R_ROWS, f"{scope}:next:{x.loc}")
                else:
                    c.bad(R_ROWS, f"{x.fn}:next", f"{scope}: after the rows {show(a)[:40]}:{show(b)[:40]} the next batch goes to {show(x.value)[:60]}", x.loc)
        # read: both ends from one note
        for e in rev:
            if e.kind == "subload" and isinstance(e.index, T) and e.index.op == "slice":
                if not any(x.op == "sub" for x in alts(e.index.args[0])):
                    if e.loops and not any(x.op == "const" for x in (e.index.args[0], e.index.args[1])):
                        if any(v and t.op == "cmp" and t.args[0] == "==" and B in t.args[1:] for t, v in e.pc):
                            c.ok(R_ROWS, f"{scope}:read:{e.loc}")
                        else:
                            c.bad(R_ROWS, f"{e.fn}:{e.loc}", f"{scope}: rows are read that are not those of the batch asked for", e.loc)
                    continue
                self.read(scope, e, e.index.args[0], e.index.args[1], tested=True)

    @staticmethod
    def covers(x, a):
        """Every alternative of a is one of x (x may come from more histories)."""
        if any(y.op == "mix" for y in alts(a)) and all(y.op == "const" for y in alts(x)):
            return False

        def rest(y):
            """What a row is counted from where the start depends on the history: (everything else, the start's kind)."""
            d = lin(y)
            open_ = [k for k in d if isinstance(k, T) and k.op in ("mix", "phi")]
            return frozenset((k, v) for k, v in d.items() if k not in open_) if open_ and len(d) > 1 else None
        have = {rest(z) for z in alts(x)} - {None}
        # too many histories to keep apart: fields are compared by name
        names = {v.args[1] for z in alts(x) if z.op == "mix" for v in z.args if isinstance(v, T) and v.op == "attr"}
        return all(y in alts(x) or rest(y) in have or y.op == "attr" and y.args[1] in names for y in alts(a) if y.op != "mix")

    def entries(self, x):
        ks = [v for how, v in self.i.contents.get(x.args[0], ()) if how == "key"]
        vs = [v for how, v in self.i.contents.get(x.args[0], ()) if how == "val"]
        h = self.i.S.heap.get(x.args[0], {})
        it = h.get("items")
        if isinstance(it, dict):
            return list(it.items())
        out = [(k, v) for k, v in h.items() if k not in ("items",) and isinstance(v, T)]
        return out or list(zip(ks, vs))

    @staticmethod
    def ordered(it):
        def name(k):
            return str(k.args[0]) if isinstance(k, T) and k.op == "const" else str(k)
        s = [v for k, v in it.items() if "start" in name(k)]
        e = [v for k, v in it.items() if "end" in name(k)]
        return (s[0], e[0]) if len(s) == 1 and len(e) == 1 else None

    def read(self, scope, e, a, b, tested=False):
        c = self.c
        for x in alts(a) if isinstance(a, T) else ():
            if x.op != "sub" or x.args[1].op != "const" or "row" not in str(x.args[1].args[0]) and "start" not in str(x.args[1].args[0]):
                continue
            ys = [y for y in alts(b) if isinstance(b, T) and y.op == "sub" and y.args[0] is x.args[0]]
            if not ys:
                c.bad(R_ROWS, f"{e.fn}:{e.loc}", f"{scope}: rows {show(a)[-40:]} to {show(b)[-40:]} are not one batch's", e.loc)
                continue
            if str(x.args[1].args[0]) == str(ys[0].args[1].args[0]) or "end" in str(x.args[1].args[0]):
                c.bad(R_ROWS, f"{e.fn}:{e.loc}", f"{scope}: rows are read from {x.args[1].args[0]} to {ys[0].args[1].args[0]}", e.loc)
                continue
            if tested:
                eq = [t for t, v in e.pc if v and t.op == "cmp" and t.args[0] == "==" and B in t.args[1:]
                      and any(z.op == "sub" and z.args[0] is x.args[0] for z in t.args[1:])]
                if not eq:
                    c.bad(R_ROWS, f"{e.fn}:{e.loc}", f"{scope}: the rows read are those noted for some other batch than the one asked for", e.loc)
                    continue
            c.ok(R_ROWS, f"{scope}:read:{e.loc}")

    # -------------------------------------------------- loaders
    def loader(self, kind, scope, par, labels):
        c, i = self.c, self.i
        ev = self.op("create_gradient_dataloader", "dl:" + kind, batch_range=sym("range"), **par)
        new = [e for e in ev if e.kind == "new" and self.getitem(e.d.get("obj")) is not None]
        self.ranges(scope, ev)
        if not new:
            c.unknown(R_LOAD, scope, "the loader's data set was not recognised")
            return
        starts = set()
        for e in new:
            D = e.d["obj"]
            n = len(i.events)
            self.mark()
            m = i.getattr(D, "__getitem__", e.node)
            try:
                out = i.call_term(m, (sym("idx"),), (), e.node)
            except Dead:
                continue
            sub = i.events[n:]
            self.ranges(scope, sub)
            for x in sub:
                self.F(i, x)
            got = self.loaded(out)
            found = set()
            for x in sub:
                if x.kind == "subload" and any(b in self.places for b in alts(x.base)):
                    found |= {("field", self.places[b]) for b in alts(x.base) if b in self.places}
            for f in self.files(sub, ("read",)) + self.files(ev, ("read", "look")):
                for p in alts(f.path):
                    for y in parts(p):
                        found.add(("const", y))
            want = {l[1] for l in labels}
            if any(l[0] == "field" for l in labels):
                kept = {l[1] for ls in self.where.values() for l in ls if l[0] == "field"}
                good = {l[1] for l in found if l[0] == "field"} & kept == want
            else:
                cons = {str(l[1]) for l in found if l[0] == "const"}
                other = {str(l[1]) for k in KINDS if k != kind for l in self.kindlabels(k)} - want
                good = self.reads_kind(ev, labels)
            if good is True:
                c.ok(R_LOAD, f"{scope}:{e.d.get('cls')}")
            elif good is False:
                c.bad(R_LOAD, f"{self.n}:{kind}", f"the loader for {scope} does not read the place they are stored in ({', '.join(str(l[1]) for l in labels)})", e.loc)
            else:
                c.unknown(R_LOAD, scope, "what the loader reads was not recognised")
            for t, mp in got:
                self.mapping(scope, t, mp, e, starts)
        self.collate(scope, ev, starts)

    def kindlabels(self, kind):
        return ()

    def reads_kind(self, evs, labels):
        """The data read back is the kind stored: compared by the directory the writer uses for that kind."""
        k = next((l[1] for l in labels if l[0] == "kind"), None)
        w = self.kindwriter
        if k is None or w is None:
            return None
        dirs = w(k)
        every = {q for z in {l[1] for ls in self.where.values() for l in ls if l[0] == "kind"} for q in w(z)}
        read = set()
        for f in self.files(evs, ("look", "read")):
            for q in (f.path, parent(f.path)):
                if q in every:
                    read.add(q)
        if not read or not dirs:
            return None
        return bool(read & dirs)

    def find_writer(self):
        """kind -> directories the background writer puts it in."""
        h, i = self.h, self.i
        target = None
        for kind, e, name, t in threads(h.r):
            if kind != "thread":
                continue
            h.value(t, "c11:" + name)
            for x in h.r.events("c11:" + name):
                if x.kind == "call" and x.bound and "data_type" in x.bound and str(x.callee).startswith(BLOCK_PKG) and target is None:
                    target = x
        if target is None:
            return None

        f = None
        name = str(target.callee).rsplit(".", 1)[-1]
        own = target.bound.get("self")
        if isinstance(own, T) and own.op == "obj":
            f = i.getattr(own, name, target.node)
        elif isinstance(target.d.get("func"), T):
            f = target.d["func"]
        if f is None:
            return None

        def dirs(k):
            n = f"c11w:{k}"
            if n not in h.r.ranges:
                b = {p: v for p, v in target.bound.items() if p != "self" and isinstance(v, T)}
                if "data_type" in b:
                    b["data_type"] = const(k)
                h.value(f, n, kwargs=tuple(b.items()))
                notes = self.filenotes.setdefault(k, [])
                for e in h.r.events(n):
                    if e.kind == "call" and str(e.callee) in ("json.dump", "json.dumps") and e.args:
                        for x in alts(e.args[0]):
                            if x.op == "obj":
                                notes.append({str(a.args[0]) if isinstance(a, T) and a.op == "const" else str(a[-1] if isinstance(a, tuple) else a): v
                                              for a, v in self.entries(x) if isinstance(v, T)})
            out = set()
            for w in self.files(h.r.events(n), ("write", "create")):
                for p in alts(w.path):
                    d = parent(p)
                    if d is not None:
                        out |= set(alts(d))
            return out
        return dirs

    def getitem(self, o):
        if o is None or o.op != "obj":
            return None
        ci = self.i.objs[o.args[0]].get("cls")
        return ci.find(self.c.repo, "__getitem__") if ci is not None else None

    def loaded(self, out):
        got = []
        for x in alts(out) if isinstance(out, T) else ():
            if x.op == "tuple" and len(x.args) == 2:
                got.append((x.args[0], x.args[1]))
        return got

    def mark(self):
        self.since = (len(self.i.events), {u: len(l) for u, l in self.i.contents.items()})

    def put(self, m):
        """(keys, values) put into a dictionary by the call looked at."""
        i = self.i
        n, old = self.since
        st = [x for x in i.events[n:] if x.kind == "substore" and m in alts(x.base)]
        if st:
            return [x.index for x in st], [x.value for x in st]
        new = i.contents.get(m.args[0], [])[old.get(m.args[0], 0):] or i.contents.get(m.args[0], [])
        return [v for how, v in new if how == "key"], [v for how, v in new if how == "val"]

    def mapping(self, scope, t, mp, e, starts):
        """The rows a data set item notes are rows of the tensor next to it."""
        c, i = self.c, self.i
        for m in alts(mp):
            if m.op != "obj":
                continue
            ks, vs = self.put(m)
            for v in vs:
                for w in alts(v):
                    if w.op != "tuple" or len(w.args) != 2:
                        continue
                    a, b = w.args
                    starts.add(a)
                    dims = [y for y in alts(b) if y.op == "dim"]
                    if dims and all(x.op == "const" for x in alts(a)):
                        own = all(set(alts(y.args[0])) & set(alts(t)) and y.args[1] == 0 for y in dims)
                        if own and all(x.args[0] == 0 for x in alts(a)):
                            c.ok(R_ROWS, f"{scope}:item")
                        else:
                            c.bad(R_ROWS, f"{self.n}:item", f"{scope}: an item says its rows are {show(a)} to {show(b)[:60]}, which are not all rows of its tensor", e.loc)
                        for k in ks:
                            sel = [y for y in alts(t) if y.op in ("sub", "pick")]
                            if sel and not any(k is y.args[-1] or k in alts(y.args[-1]) for y in sel):
                                c.bad(R_ROWS, f"{self.n}:item", f"{scope}: the tensor of batch {show(sel[0].args[-1])} is given out as batch {show(k)}", e.loc)
                            elif sel:
                                c.ok(R_ROWS, f"{scope}:item-key")
                    elif a.op == "sub" and b.op == "sub":
                        if self.filtered(t, e, m):
                            c.bad(R_ROWS, f"{self.n}:item", f"{scope}: some batches were left out of a tensor but the rows noted for the others are those of the whole chunk", e.loc)
                        elif a.args[0] is b.args[0] and "end" not in str(a.args[1].args[0]) and a.args[1] is not b.args[1]:
                            keyed = [k for k in ks if k.op == "sub"]
                            if keyed and not any(k.args[0] is a.args[0] for k in keyed):
                                c.bad(R_ROWS, f"{self.n}:item", f"{scope}: the rows noted for one batch are given out for another", e.loc)
                            else:
                                c.ok(R_ROWS, f"{scope}:item")
                        else:
                            c.bad(R_ROWS, f"{self.n}:item", f"{scope}: an item says its rows are {show(a)[-40:]} to {show(b)[-40:]}", e.loc)
                    elif any(self.psum(y) for y in subterms(a)):
                        self.moved(scope, "item", a, b, e, R_ROWS, None)
                        self.taken(scope, t, e)
                    elif a.op == "lv":
                        c.bad(R_ROWS, f"{self.n}:item", f"{scope}: the rows of a batch start at a number that is not the count of the rows before it", e.loc)

    def taken(self, scope, t, e):
        """The rows picked from a chunk are the ones noted for the batches."""
        c, i = self.c, self.i
        for y in alts(t):
            if y.op != "sub" or y.args[1].op != "obj" or i.objs[y.args[1].args[0]]["kind"] != "list":
                continue
            for x in i.events[self.since[0]:]:
                if x.kind == "call" and last(x) == "extend" and x.recv is not None and y.args[1] in alts(x.recv) and x.args:
                    for r in alts(x.args[0]):
                        if r.op == "call" and show(r.args[0]).endswith("range"):
                            ab = [z for z in r.args[1:] if isinstance(z, T)] or [z for q in r.args[1:] if isinstance(q, tuple) for z in q if isinstance(z, T)]
                            if len(ab) != 2:
                                continue
                            a, b = ab
                            if a.op == b.op == "sub" and a.args[0] is b.args[0] and "start" in str(a.args[1].args[0]) and "end" in str(b.args[1].args[0]):
                                c.ok(R_ROWS, f"{scope}:taken")
                            elif any(self.psum(q) for q in subterms(a)) or a.op == "sub":
                                c.bad(R_ROWS, f"{self.n}:taken", f"{scope}: the rows picked for a batch are {show(a)[-40:]} to {show(b)[-40:]}, not those noted for it", x.loc)

    def filtered(self, t, e, m):
        """The tensor returned next to the mapping is a selection of rows."""
        i = self.i
        for x in i.events[self.since[0]:]:
            v = x.d.get("value") if x.kind == "return" else None
            if isinstance(v, T) and v.op == "tuple" and len(v.args) == 2 and v.args[1] is m:
                for y in alts(v.args[0]):
                    if y.op == "sub" and y.args[1].op == "obj" and i.objs[y.args[1].args[0]]["kind"] == "list":
                        return True
        return False

    def moved(self, scope, what, a, b, e, rule, starts, own=None):
        """(a, b) = (rows before, rows before + rows of the batch)."""
        c = self.c
        la, lb = lin(a), lin(b)
        off = [x for x in la if isinstance(x, T) and self.psum(x)]
        if len(off) != 1 or la[off[0]] != 1:
            c.bad(rule, f"{self.n}:{what}", f"{scope}: rows start at {show(a)[:60]}, not after the rows before them", e.loc)
            return
        o = off[0]
        init, step = self.psum(o)
        if not all(x.op == "const" and x.args[0] == 0 for x in alts(init)):
            c.bad(rule, f"{self.n}:{what}", f"{scope}: the first rows start at {show(init)}", e.loc)
            return
        rest = {k: v for k, v in la.items() if k is not o and v}
        size = {k: lb.get(k, 0) - la.get(k, 0) for k in set(la) | set(lb)}
        size = {k: v for k, v in size.items() if v}
        pair = sorted(size.items(), key=lambda kv: kv[1])
        if len(pair) == 2 and [v for _, v in pair] == [-1, 1]:
            s, t = pair[0][0], pair[1][0]
            ok = isinstance(s, T) and isinstance(t, T) and s.op == t.op == "sub" and s.args[0] is t.args[0] and s is not t
            if not ok:
                c.bad(rule, f"{self.n}:{what}", f"{scope}: a batch gets {show(t)[:40]} - {show(s)[:40]} rows", e.loc)
                return
            if rest and rest != {s: 1}:
                c.bad(rule, f"{self.n}:{what}", f"{scope}: a batch's rows start at {show(a)[:80]}", e.loc)
                return
            if not rest and starts is not None and not all(x.op == "const" and x.args[0] == 0 for q in starts for x in alts(q)):
                c.bad(rule, f"{self.n}:{what}", f"{scope}: where chunks are joined the rows before a batch within its own chunk are not counted", e.loc)
                return
            # the offset grows by all rows of the piece
            g = lin(step)
            if own is not None:
                good = any(y.op == "dim" and y.args[1] == 0 for y in alts(step)) or {k: v for k, v in g.items() if v} == {t: 1, s: -1} and starts is None
            else:
                good = {k: v for k, v in g.items() if v} == {t: 1, s: -1}
            if not good:
                c.bad(rule, f"{self.n}:{what}", f"{scope}: after a piece the rows counted before the next one grow by {show(step)[:60]}", e.loc)
                return
            c.ok(rule, f"{scope}:{what}")
        elif any(isinstance(k, T) and k.op == "dim" for k in size):
            c.ok(rule, f"{scope}:{what}")
        else:
            c.bad(rule, f"{self.n}:{what}", f"{scope}: a batch's rows are {show(a)[:50]} to {show(b)[:50]}: not as many as it has", e.loc)

    def collate(self, scope, ev, starts):
        c, i = self.c, self.i
        fs = []
        for e in ev:
            if e.kind in ("call", "new"):
                for k, v in e.kwargs or ():
                    if k == "collate_fn" and isinstance(v, T) and i.lookup_fv(v) is not None:
                        fs.append((v, e))
        for f, e in fs[:1]:
            n = len(i.events)
            self.mark()
            try:
                out = i.call_term(f, (sym("items"),), (), e.node)
            except Dead:
                continue
            for x in alts(out):
                if x.op != "tuple" or len(x.args) != 2:
                    continue
                for m in alts(x.args[1]):
                    if m.op != "obj":
                        continue
                    for v in self.put(m)[1]:
                        for w in alts(v):
                            if w.op == "tuple" and len(w.args) == 2:
                                self.moved(scope, "joined", w.args[0], w.args[1], e, R_JOIN, starts, own=True)
        if not fs:
            c.unknown(R_JOIN, scope, "no function that joins chunks was recognised")

    def ranges(self, scope, evs):
        c = self.c
        R = sym("range")
        for e in evs:
            if e.kind not in ("item", "call", "substore", "append"):
                continue
            for t, v in e.pc:
                lo = [x for x in (t.args[1:] if t.op == "cmp" else ()) if isinstance(x, T) and x.op in ("sub", "pick") and x.args[0] is R]
                if len(lo) != 1 or t.args[0] not in ("<", "<=", ">", ">=") or lo[0].args[1].op != "const":
                    continue
                end = lo[0].args[1].args[0]
                op = t.args[0] if t.args[1] is not lo[0] else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[t.args[0]]
                if not v:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
                # op: number op bound
                want = {0: ">=", 1: "<"}.get(end)
                if want is None or op[0] != want[0]:
                    continue
                if op == want:
                    c.ok(R_RANGE, f"{scope}:{e.fn}:{end}")
                else:
                    c.bad(R_RANGE, f"{e.fn}:{end}", f"{scope}: a range {'leaves out its first' if end == 0 else 'includes its last'} number", e.loc)

    # -------------------------------------------------- clearing
    def clear(self, where):
        c, h, i = self.c, self.h, self.i
        fields = {l[1] for ls in where.values() for l in ls if l[0] == "field"}
        ev = self.op("clear_cache", "clear")
        done = set()
        for e in ev:
            if e.kind == "setattr" and e.attr in fields:
                done.add(e.attr)
            if e.kind == "call" and last(e) in ("clear",) and e.recv is not None:
                done |= {self.places[b] for b in alts(e.recv) if b in self.places}
        for f in sorted(fields):
            if f in done:
                c.ok(R_CLEAR, f"{self.n}:{f}")
            else:
                c.bad(R_CLEAR, f"{self.n}:{f}", f"{self.n}.clear_cache leaves {f} as it is", ev[0].loc if ev else "")
        kinds = {l[1] for ls in where.values() for l in ls if l[0] == "kind"}
        dirs = {l[1] for ls in where.values() for l in ls if l[0] == "dir"}
        if kinds and self.kindwriter is not None:
            gone = set()
            for f in self.files(ev, ("remove", "rmtree")):
                for p in alts(f.path):
                    gone |= parts(p)
            for k in sorted(kinds):
                d = {y for x in self.kindwriter(k) for y in parts(x)}
                if d & gone:
                    c.ok(R_CLEAR, f"{self.n}:{k}")
                else:
                    c.bad(R_CLEAR, f"{self.n}:{k}", f"{self.n}.clear_cache leaves the files of {k} behind", ev[0].loc if ev else "")
            for d in sorted(dirs):
                if d in gone:
                    c.ok(R_CLEAR, f"{self.n}:{d}")
                else:
                    c.bad(R_CLEAR, f"{self.n}:{d}", f"{self.n}.clear_cache leaves the files in {d} behind", ev[0].loc if ev else "")

    def numbers(self):
        """Chunk k holds batches k * size to (k + 1) * size."""
        c, i = self.c, self.i
        evs = [e for k in ("st:train gradients",) for e in self.h.r.events(k)]
        div = {}
        for p, k, e in self.accesses(evs):
            for x in subterms(k):
                if x.op == "bin" and x.args[0] == "//" and x.args[1] is B:
                    div[x] = x.args[2]
        for d, size in div.items():
            for e in evs:
                if e.kind != "call" or str(e.callee) != "builtins.range" or len(e.args) < 2:
                    continue
                for a, want, word in ((e.args[0], (1, 0), "start"), (e.args[1], (1, 1), "end")):
                    for x in [a] + [y for y in a.args if isinstance(y, T) and a.op in ("max", "min")]:
                        t = self.lin2(x, d, size)
                        if t is None:
                            continue
                        if t == want:
                            c.ok(R_NUM, f"{self.n}:{word}")
                        else:
                            c.bad(R_NUM, f"{e.fn}:{word}", f"{self.n}: the batches of a chunk {word} at {show(x)}", e.loc)

    @staticmethod
    def lin2(t, d, size):
        """(x, y[, z]) if t = (x * d + y) * size + z."""
        l = lin(t)
        z = l.pop(1, 0)
        if len(l) != 1:
            return None
        (t, f), = l.items()
        if f == 1 and t.op == "bin" and t.args[0] == "*" and size in t.args[1:]:
            o = t.args[2] if t.args[1] is size else t.args[1]
            l = lin(o)
            if set(l) <= {d, 1}:
                return (l.get(d, 0), l.get(1, 0)) + ((z,) if z else ())
        return None


def lin(t):
    """{atom: factor} of a sum; 1 stands for the constant."""
    out = {}

    def add(x, f):
        if x.op == "const" and isinstance(x.args[0], int):
            out[1] = out.get(1, 0) + f * x.args[0]
        elif x.op == "bin" and x.args[0] in ("+", "-"):
            add(x.args[1], f)
            add(x.args[2], f if x.args[0] == "+" else -f)
        else:
            out[x] = out.get(x, 0) + f
    add(t, 1)
    return {k: v for k, v in out.items() if v}
