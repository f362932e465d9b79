"""Drives the abstract interpreter over the public API of the repository."""
from __future__ import annotations

import ast

from .core import AnalysisBroken
from .interp import Config, Dead, Interp, Frame, State
from .terms import NONE, T, const, mk, show, sym

TASK = "dattri.task.AttributionTask"
ALG = "dattri.algorithm."
IF = ALG + "influence_function."

OPAQUE_FUNCS = {
    "dattri.func.projection.random_project",
    "dattri.func.projection.arnoldi_project",
}
OPAQUE_MODS = ("dattri.func.hessian.", "dattri.func.fisher.", "dattri.func.utils.", "dattri.func.projection.")


class Run:
    """One analysed public-API scenario of a class."""

    def __init__(self, repo, cls, label, interp, obj):
        self.repo, self.cls, self.label, self.i, self.obj = repo, cls, label, interp, obj
        self.results = {}
        self.ranges = {}
        self.dead = False

    def call(self, method, key=None, sep=False, **params):
        """Analyse obj.method(**params); returns result term (None if every path raises).

        ``sep``: objects allocated by this call are kept apart from those of other calls of the same method."""
        boot = self.i.stack[0]
        if sep:
            boot.fid = self.i.iid("boot", key or method)
            self.i.S.frames[boot.fid] = {}
        f = self.cls.find(self.repo, method)
        if f is None:
            raise AnalysisBroken(f"{self.cls.qual}.{method} not found")
        a = f.node.args
        allp = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
        bound = {}
        for p in allp:
            bound[p] = params[p] if p in params else sym(f"{method}:{p}")
        start = len(self.i.events)
        try:
            r = self.i.enter(f, bound, self_term=self.obj)
        except Dead:
            r = None
        finally:
            boot.fid = 0
        key = key or method
        self.results[key] = r
        self.ranges[key] = (start, len(self.i.events))
        return r

    def events(self, key=None, kind=None):
        if key is None:
            evs = self.i.events
        else:
            s, e = self.ranges[key]
            evs = self.i.events[s:e]
        if kind:
            return [x for x in evs if x.kind == kind]
        return evs


def attributor(repo, qual, cfg=None, init=None, label="", opaque_mods=OPAQUE_MODS, opaque=OPAQUE_FUNCS,
               assume=None, **cfgkw):
    """Instantiate an attributor class with symbolic constructor arguments."""
    ci = repo.cls(qual)
    init = dict(init or {})
    nonnull_extra = cfgkw.pop("nonnull", None)
    kinds = cfgkw.pop("kinds", None)
    truths = cfgkw.pop("truth", None)
    may_fail = cfgkw.pop("may_fail", False)
    task = sym("task")

    def nonnull(t):
        if nonnull_extra:
            r = nonnull_extra(t)
            if r is not None:
                return r
        if t.op == "sym" and (t.args[0] in ("task",) or t.args[0].endswith("_dataloader") or
                              t.args[0].endswith(":layer_name")):
            return True
        if t.op == "attr" and t.args[1] == "batch_size":
            return True
        return None

    def kind(t):
        if kinds:
            r = kinds(t)
            if r:
                return r
        if t.op == "elem" and t.args[0].op == "sym" and t.args[0].args[0].endswith("_dataloader"):
            return "tuple"
        return None

    c = Config(opaque=opaque, opaque_mod=opaque_mods, types={task: repo.cls(TASK)}, nonnull=nonnull, kind=kind,
               truth=truths, **cfgkw)
    it = Interp(repo, c)
    if hasattr(truths, "facts"):
        truths.i = it
    # bootstrap frame for object identities
    mod = ci.module
    it.stack.append(Frame(fid=0, info=None, module=mod, cls=None, chain=(), locals=set(), nonlocals=set(),
                          node=None))
    it.S.frames[0] = {}
    f = ci.find(repo, "__init__")
    if f is None:
        raise AnalysisBroken(f"{qual}.__init__ not found")
    a = f.node.args
    allp = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
    node = ast.Call(func=ast.Name(id="new", ctx=ast.Load()), args=[], keywords=[])
    node.lineno = node.col_offset = node.end_lineno = node.end_col_offset = 0
    obj = it.new_obj("inst", node, cls=ci, extra=qual)
    it.objs[obj.args[0]]["cls"] = ci
    bound = {}
    for p in allp:
        if p in init:
            bound[p] = init[p]
        elif p == "task":
            bound[p] = task
        elif p == "layer_name":
            bound[p] = NONE
        else:
            bound[p] = sym("init:" + p)
    r = Run(repo, ci, label or qual.split(".")[-1], it, obj)
    start = 0
    try:
        it.enter(f, bound, self_term=obj)
    except Dead:
        if may_fail:
            r.dead = True
            r.ranges["__init__"] = (0, len(it.events))
            return r
        raise AnalysisBroken(f"{qual}.__init__ has no normal exit")
    r.ranges["__init__"] = (0, len(it.events))
    return r


LAYER = sym("init:layer_name")
TRAIN = sym("train_dataloader")
TEST = sym("test_dataloader")
FULL = sym("full_train_dataloader")


def interp(repo, kinds=None, nonnull=None, types=None, **cfgkw):
    """A bare interpreter with an empty bootstrap frame."""
    c = Config(types=types or {}, nonnull=nonnull or (lambda t: None), kind=kinds or (lambda t: None), **cfgkw)
    it = Interp(repo, c)
    if hasattr(c.truth, "facts"):
        c.truth.i = it
    mod = next(iter(repo.modules.values()))
    it.stack.append(Frame(fid=0, info=None, module=mod, cls=None, chain=(), locals=set(), nonlocals=set(), node=None))
    it.S.frames[0] = {}
    return it


class FRun(Run):
    """Analysis of module-level functions."""

    def __init__(self, repo, it):
        Run.__init__(self, repo, None, "", it, None)

    def fcall(self, qual, key=None, **params):
        f = self.repo.func(qual)
        a = f.node.args
        bound = {}
        for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
            bound[p] = params[p] if p in params else sym(p)
        if a.vararg:
            bound[a.vararg.arg] = params.get("*", mk("tuple"))
        if a.kwarg:
            node = ast.Call(func=ast.Name(id="kw", ctx=ast.Load()), args=[], keywords=[])
            node.lineno = node.col_offset = node.end_lineno = node.end_col_offset = 0
            bound[a.kwarg.arg] = self.i.new_obj("dict", node, extra="kw:" + qual)
        start = len(self.i.events)
        try:
            r = self.i.enter(f, bound)
        except Dead:
            r = None
        key = key or qual
        self.results[key] = r
        self.ranges[key] = (start, len(self.i.events))
        return r

    def apply(self, fterm, *args, key, **kw):
        """Analyse a call of a function value (a returned closure, a method of a returned object)."""
        node = ast.Call(func=ast.Name(id="f", ctx=ast.Load()), args=[], keywords=[])
        node.lineno = node.col_offset = node.end_lineno = node.end_col_offset = 0
        start = len(self.i.events)
        try:
            r = self.i.call_term(fterm, tuple(args), tuple(kw.items()), node)
        except Dead:
            r = None
        self.results[key] = r
        self.ranges[key] = (start, len(self.i.events))
        return r


def functions(repo, **cfgkw):
    return FRun(repo, interp(repo, **cfgkw))
