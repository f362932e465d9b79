"""C05: temporary hooks and replaced methods are undone on every exit."""
from __future__ import annotations

import ast

from ..drive import ALG, FULL, IF, OPAQUE_MODS, TEST, TRAIN, attributor, functions
from ..scen import BLOCK, BLOCK_PKG, DVEMB, IFS, RPS, TRAK, table
from ..terms import NONE, T, alts, children, const, is_const, mk, sym

R_RET = "released-on-return"
R_EXC = "released-on-exception"
REGISTER = {"register_forward_hook", "register_forward_pre_hook", "register_full_backward_hook",
            "register_backward_hook", "register_full_backward_pre_hook", "register_hook",
            "register_module_forward_hook", "register_module_forward_pre_hook",
            "register_module_full_backward_hook", "register_post_accumulate_grad_hook"}
CALLABLE = {"func", "bound", "closure", "lambda", "partial", "method"}
QUIET_METHODS = {"to", "cpu", "cuda", "values", "keys", "items", "append", "extend", "shape", "size", "get_submodule",
                 "named_modules", "named_parameters", "modules", "model_copy", "model_dump", "lower", "strip", "join",
                 "get", "pop", "clear", "insert", "zero_grad", "detach", "remove", "format", "split", "debug", "info",
                 "warning", "numel", "dim", "requires_grad_", "__enter__", "__exit__", "close"}


def prefix(a, b, _whole=False):
    return tuple(b[:len(a)]) == tuple(a)


class Tracker:
    """Which hook handles and replaced methods are live."""

    def __init__(self):
        self.res = {}        # handle term -> key
        self.info = {}       # key -> (kind, where, loops, handle/patch data)
        self.saved = set()   # attribute names under which an original method was saved
        self.attached = {}   # context-manager term -> set of keys

    # ---- events
    def __call__(self, i, e):
        if e.kind == "setattr" and not self._own(i, e.base):
            return self._patch(i, e)
        if e.kind == "delattr":
            return (), self._unpatch(i, e.base, e.attr)
        if e.kind != "call":
            return (), ()
        last = str(e.callee).rsplit(".", 1)[-1]
        if last in REGISTER and e.result is not None:
            key = ("hook", e.loc, last)
            self.res[e.result] = key
            self.info[key] = (last, e.loc, e.loops, None)
            return (key,), ()
        if last == "delattr" and len(e.args) == 2 and e.args[1].op == "const":
            return (), self._unpatch(i, e.args[0], e.args[1].args[0])
        if last == "remove" and e.recv is not None and not e.args:
            return (), self.handles(i, e.recv, e.loops)
        if last in ("callback", "push", "enter_context") and e.recv is not None and e.args:
            a = e.args[0]
            if a.op in ("attr", "method", "bound") and a.args[1] == "remove":
                a = a.args[0]
            ks = self.handles(i, a, e.loops)
            if not ks and last == "callback":
                ks = {self.res[x] for y in e.args for x in i.expand(y) if x in self.res}
            cm = e.recv.args[0] if e.recv.op == "enter" else e.recv
            self.attached.setdefault(cm, set()).update(ks)
        return (), ()

    @staticmethod
    def _own(i, b):
        return any(x.op == "obj" and i.objs[x.args[0]]["kind"] != "module" for x in alts(b))

    def _function(self, i, v):
        return any(x.op in CALLABLE or x.op == "fn" for x in alts(v)) or v.op == "obj" and "func" in str(i.objs[v.args[0]]["kind"])

    def _original(self, i, v):
        """The value is a method that was on the module before."""
        for x in i.expand(v, follow_lv=True):
            if x.op == "attr" and (x.args[1] in self.saved):
                return True
        return False

    def _patch(self, i, e):
        if not isinstance(e.attr, str) or e.value is None:
            return (), ()
        v = e.value
        if v.op == "attr" and not self._repo_code(i, v):
            # a method of the module stored under another name, or put back
            if e.attr == v.args[1] or v.args[1] in self.saved:
                return (), self._unpatch(i, e.base, e.attr)
            self.saved.add(e.attr)
            return (), ()
        if not self._repo_code(i, v):
            if self._original(i, v) or any(x.op == "attr" and x.args[1] == e.attr for x in i.expand(v)):
                return (), self._unpatch(i, e.base, e.attr)
            return (), ()
        key = ("patch", e.loc, e.attr)
        self.info[key] = ("replacement of ." + e.attr, e.loc, e.loops, e.attr)
        return (key,), ()

    def _repo_code(self, i, v):
        return any(i.lookup_fv(x) is not None for x in [*alts(v), *[a for y in alts(v) if y.op == "partial" for a in alts(y.args[0])]])

    def _unpatch(self, i, base, attr):
        return {k for k, v in self.info.items() if k[0] == "patch" and v[3] == attr}

    # ---- which handles does a term stand for?
    def handles(self, i, t, loops, whole=False):
        out = set()
        inner = {}
        todo, seen = [(t, bool(whole))], set()
        while todo:
            x, via = todo.pop()
            if (x, via) in seen:
                continue
            seen.add((x, via))
            if x in self.res:
                k = self.res[x]
                at = self.info[k][2]
                if via or tuple(loops[:len(at)]) == tuple(at):
                    out.add(k)
                else:
                    # the removal loop runs over the container that holds the handle: it treats every entry alike
                    for lid in loops:
                        ks = self.handles(i, i.loopinfo[lid]["iter"], loops, True) if lid in i.loopinfo else ()
                        if k in ks:
                            out |= ks
                continue
            if x.op == "elem":
                todo.append((i.iter_source(x.args[0]), True))
            elif x.op in ("phi", "prev", "loopout", "lv", "tuple"):
                if x.op == "lv":
                    todo += [(y, via) for y in i.lvinfo.get(x, ())]
                else:
                    todo += [(y, via) for y in x.args if isinstance(y, T)]
            elif x.op == "obj":
                if not inner.get((x, via)) and not prefix(i.objs[x.args[0]].get("loops", ()), loops, whole):
                    continue      # built anew in each round of a loop that is over: holds the last round's handles
                todo += [(y, via) for _, y in i.contents.get(x.args[0], ())]
                for _, y in i.contents.get(x.args[0], ()):
                    inner[(y, via)] = True
                if i.objs[x.args[0]]["kind"] != "inst":
                    todo += [(y, via) for y in i.S.heap.get(x.args[0], {}).values() if isinstance(y, T)]
            elif x.op == "sub" and len(x.args) > 1 and x.args[1].op != "slice":
                y = x.args[0]
                if y.op in ("elem", "sub") or y.op == "obj" and i.objs[y.args[0]]["kind"] == "dict":
                    todo.append((y, via))
            elif x.op == "pick" and loops:
                todo += [(y, True) for y in x.args[1:2]]      # drained in a loop
            elif x.op == "dictview":
                todo.append((x.args[1], via))
            elif x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].rsplit(".", 1)[-1] in (
                    "reversed", "list", "tuple", "chain", "zip", "enumerate", "from_iterable", "iter"):
                todo += [(y, via) for y in x.args[1]]
        return out

    def cm_exit(self, i, cm):
        out = set(self.attached.get(cm, ()))
        out |= self.handles(i, cm, ()) if cm in self.res else set()
        if cm in self.res:
            out.add(self.res[cm])
        return out

    def empty(self, i, t):
        """An empty container holds no handle."""
        return self.handles(i, t, [f for f in i.loops], True) if t.op == "obj" and i.objs[t.args[0]]["kind"] != "inst" else ()

    def nonnull(self, t):
        if t.op == "attr" and t.args[1] in self.saved:
            return True
        return None

    def truth(self, t):
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.hasattr" and len(t.args[1]) == 2:
            n = t.args[1][1]
            if n.op == "const" and n.args[0] in self.saved:
                return True
        return None

    def raises(self, i, e):
        """User code (model, losses, training loop) and data loading may fail; bookkeeping calls may not."""
        if e.kind in ("yield", "raise"):
            return True
        if e.kind == "iter":
            return any(x.op == "sym" and ("dataloader" in x.args[0]) or x.op == "call" and x.args[0].op == "ext" and
                       "Loader" in x.args[0].args[0] for x in i.expand(e.iterable))
        if e.kind != "call":
            return False
        c = str(e.callee)
        last = c.rsplit(".", 1)[-1]
        if c.startswith((".",)):
            return last not in QUIET_METHODS and last not in REGISTER
        if c == "<value>":
            return True
        if c.startswith(("torch.", "builtins.", "warnings.", "logging.", "contextlib.", "collections.", "functools.", "tqdm", "copy.",
                         "time.", "math.", "numpy.")):
            return last in ("next", "vmap", "grad", "jacrev", "functional_call") and last != "no_grad"
        return True


BLK_OPAQUE = OPAQUE_MODS + (BLOCK_PKG + "offload.", BLOCK_PKG + "core.metadata", BLOCK_PKG + "core.utils")


def plans():
    full, tt = dict(full_train_dataloader=FULL), dict(train_dataloader=TRAIN, test_dataloader=TEST)
    one = dict(train_dataloader=TRAIN)
    for s in table():
        cfg = dict(s.cfg)
        if s.qual == RPS:
            cfg.pop("opaque", None)
        yield s.name, s.qual, s.calls, dict(s.init), cfg
    for fac in ("kronecker", "elementwise"):
        init = dict(factorization_type=const(fac))
        yield f"DVEmb[{fac}].cache_gradients", DVEMB, [("main", "cache_gradients", {})], init, {}
        yield f"DVEmb[{fac}].cache_gradients_context", DVEMB, [("main", "cache_gradients_context", {})], init, {}
        yield f"DVEmb[{fac}].attribute", DVEMB, [("main", "attribute", tt)], init, {}
    for hess in ("Identity", "eFIM"):
        init = dict(hessian=const(hess), layer_names=sym("layers"))
        cfg = dict(opaque_mods=BLK_OPAQUE)
        yield f"Block[{hess}].cache,attribute", BLOCK, [("cache", "cache", full), ("main", "attribute", tt)], init, cfg
        yield f"Block[{hess}].attribute", BLOCK, [("main", "attribute", tt)], init, cfg
        yield f"Block[{hess}].self", BLOCK, [("cache", "cache", full), ("main", "compute_self_attribution", {})], init, cfg


def sites(repo):
    """Every place that registers a hook, by source position."""
    out = {}
    for m in repo.modules.values():
        if ".benchmark" in m.name:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in REGISTER:
                out[f"{m.rel}:{n.lineno}"] = n.func.attr
    return out


def examine(c, name, r, key, start, covered, tr):
    i = r.i
    c.functions |= i.inlined
    for e in i.events[start:]:
        if e.kind == "call" and str(e.callee).rsplit(".", 1)[-1] in REGISTER:
            covered.add(e.loc)
    live = {k for k in i.S.held} if r.results.get(key) is not None else set()
    bad = {}
    for s in i.exc_frames[0]:
        for k in s.held:
            bad.setdefault(k, s.why)
    used = {k for k in tr.info}
    for k in sorted(used, key=str):
        kind, where, _, _ = tr.info[k]
        fn = where
        if k in live:
            c.bad(R_RET, f"{name}.{key}:{site(i, k)}", f"the {kind} made at {where} is still in place when {name} returns", where)
        else:
            c.ok(R_RET, f"{name}.{key}:{site(i, k)}")
        if k in bad:
            w = bad[k]
            c.bad(R_EXC, f"{name}.{key}:{site(i, k)}",
                  f"the {kind} made at {where} stays on the model when {describe(w)} fails", getattr(w, "loc", "") or where)
        else:
            c.ok(R_EXC, f"{name}.{key}:{site(i, k)}")
    i.exc_frames[0].clear()
    i.S.held = frozenset()


def site(i, k):
    return f"{k[1].rsplit(':', 1)[0].rsplit('/', 1)[-1]}:{k[2]}"


def describe(e):
    if e is None:
        return "user code"
    if e.kind == "iter":
        return f"iterating the data loader at {e.loc}"
    if e.kind == "yield":
        return f"the code run inside the context at {e.loc}"
    return f"the call at {e.loc}"


def run(c):
    c.rule(R_RET, "on every normal path from an operation's entry to its return, every hook handle it obtained has been "
                  "removed and every module method it replaced has been restored")
    c.rule(R_EXC, "on every exceptional path out of the operation that starts in user code (model, loss or target function, "
                  "training loop) or in data loading, the same holds")
    c.need(R_RET, 8)
    c.need(R_EXC, 8)
    covered = set()
    for name, qual, calls, init, cfg in plans():
        with c.guard(name):
            tr = Tracker()
            r = attributor(c.repo, qual, init=init, truth=tr.truth, nonnull=tr.nonnull, track_exc=True, resource=tr, raises=tr.raises,
                           cm_exit=tr.cm_exit, empty=tr.empty, **cfg)
            c.scenarios.append(name)
            for key, method, params in calls:
                r.i.exc_frames[0].clear()
                start = len(r.i.events)
                r.call(method, key=key, **params)
                examine(c, name, r, key, start, covered, tr)
    with c.guard("get_final_layer_io"):
        tr = Tracker()
        r = functions(c.repo, truth=tr.truth, nonnull=tr.nonnull, track_exc=True, resource=tr, raises=tr.raises, cm_exit=tr.cm_exit, empty=tr.empty)
        r.fcall("dattri.model_util.hook.get_final_layer_io", dataloader=sym("train_dataloader"))
        examine(c, "get_final_layer_io", r, "dattri.model_util.hook.get_final_layer_io", 0, covered, tr)
    with c.guard("HookManager"):
        for extra in ((), ("disable_hooks",), ("disable_hooks", "enable_hooks")):
            tr = Tracker()
            r = attributor(c.repo, BLOCK_PKG + "core.hook.HookManager", init=dict(register_hooks=const(True)), truth=tr.truth,
                           nonnull=tr.nonnull, track_exc=True, resource=tr, raises=tr.raises, cm_exit=tr.cm_exit, empty=tr.empty)
            for mth in extra + ("remove_hooks",):
                r.call(mth, key=mth)
            examine(c, "HookManager:" + ",".join(extra), r, "remove_hooks", 0, covered, tr)
    for w, what in sorted(sites(c.repo).items()):
        if w not in covered:
            c.unknown(R_EXC, w, f"{what} is not reached from the analysed operations")
