"""Shared pieces of the checks on disk storage: background threads, their queues, locks and file effects."""
from __future__ import annotations

import ast

from .drive import attributor
from .files import Files, parts, path
from .interp import Dead, joinv
from .scen import BLOCK_PKG
from .terms import NONE, T, alts, const, mk, show, sym

IO = BLOCK_PKG + "offload.disk_io."
LOCKS = {"threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore", "threading.BoundedSemaphore"}
QUEUES = {"queue.Queue", "queue.SimpleQueue", "queue.LifoQueue", "queue.PriorityQueue"}


def made_by(t):
    """Qualified name of the external constructor a value comes from."""
    return t.args[0].args[0] if t.op == "call" and t.args[0].op == "ext" else None


def public(repo, ci):
    """Methods of a class callers may use, base classes of the repository included."""
    out = {}
    for k in reversed(ci.mro(repo)):
        for n, f in k.methods.items():
            if not n.startswith("_") or n in ("__getitem__", "__iter__", "__len__", "__call__"):
                out[n] = f
    return out


def threads(r):
    """[(kind, event, name of the method run, object)] for threads started and tasks submitted so far."""
    out = []
    for e in r.i.events:
        if e.kind != "call":
            continue
        c = str(e.callee)
        t = None
        if c == "threading.Thread":
            t = next((v for k, v in e.kwargs if k == "target"), e.args[1] if len(e.args) > 1 else None)
            kind = "thread"
        elif c.rsplit(".", 1)[-1] == "submit" and e.recv is not None and e.args:
            t, kind = e.args[0], "task"
        if t is None:
            continue
        for x in alts(t):
            fv = r.i.lookup_fv(x)
            if fv is not None and fv[0].info is not None:
                out.append((kind, e, fv[0].info.name, x))
            elif x.op in ("ext", "partial"):
                out.append((kind, e, x.args[0] if x.op == "ext" else show(x), x))
    return out


def thread_classes(repo):
    """Classes of the block package that start threads or submit tasks."""
    out = []
    for ci in repo.all_classes():
        if not ci.qual.startswith(BLOCK_PKG):
            continue
        for f in ci.methods.values():
            if any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in ("Thread", "submit")
                                                or isinstance(n.func, ast.Name) and n.func.id == "Thread")
                   for n in ast.walk(f.node)):
                out.append(ci)
                break
    return out


def lock_of(t):
    """Identity of the lock a ``with`` statement takes, if it is one."""
    for x in alts(t):
        if made_by(x) in LOCKS:
            return x
        if x.op == "sub":     # a lock per key: all of them count as one
            b = x.args[0]
            return mk("locks", b)
    return None


QUIET_CALLS = ("logging.", "time.", "builtins.len", "builtins.isinstance", "builtins.print", "builtins.range", "traceback.")
QUIET_METHODS = {"debug", "info", "warning", "error", "exception", "log", "empty", "is_set", "set", "keys", "items", "values",
                 "append", "task_done", "notify", "notify_all", "qsize", "locked", "cpu", "contiguous", "copy", "clone"}


def raises(i, e):
    """Calls assumed not to fail: logging, clocks, queries."""
    if e is None or e.kind != "call":
        return True
    c = str(e.callee)
    return not (c.startswith(QUIET_CALLS) or c.startswith("<LOGGER>") or c.rsplit(".", 1)[-1] in QUIET_METHODS and not e.d.get("fv"))


def handler_types(t):
    return {x.strip(" ()").rsplit(".", 1)[-1] for x in str(t).split(",")}


NARROW = {"Full": ("put", "put_nowait"), "Empty": ("get", "get_nowait"), "StopIteration": ("next", "builtins.next", "__next__"),
          "FileNotFoundError": (), "ImportError": (), "ModuleNotFoundError": (), "KeyError": (), "IndexError": (), "AttributeError": (), "TimeoutError": ("result", "wait")}


def catches(t, s):
    """Whether a handler of this type catches what was raised in this state: queue conditions are told apart."""
    names = handler_types(t)
    why = getattr(s, "why", None)
    last = str(why.callee).rsplit(".", 1)[-1] if why is not None and why.kind == "call" else ""
    known = [NARROW[n] for n in names if n in NARROW]
    if len(known) < len(names):
        return True
    return any(last in k for k in known)


class Harness:
    """An object of a class after any history of its public methods.

    Every public method is analysed twice; fields reassigned by one of them then stand for all values they may
    have. Single methods are analysed from that state, with the typestate keys ``start`` in force at entry."""

    def __init__(self, repo, qual, init=None, rounds=2, skip=(), **cfg):
        self.tr = Tokens()
        cfg.setdefault("flat", True)
        cfg.setdefault("track_exc", True)
        cfg.setdefault("raises", raises)
        cfg.setdefault("catches", catches)
        cfg.setdefault("resource", self.tr)
        cfg.setdefault("learn", self.tr.learn)
        cfg.setdefault("model", self.tr.model)
        cfg.setdefault("err", self.tr.err)
        cfg.setdefault("cm_exit", self.tr.cm_exit)
        self.r = attributor(repo, qual, init=init or {}, **cfg)
        self.i = self.r.i
        self.repo, self.ci = repo, repo.cls(qual)
        self.methods = {n: f for n, f in public(repo, self.ci).items() if n not in skip}
        self.exit = {}
        for k in range(rounds):
            for n, f in self.methods.items():
                self.call(n, f"warm{k}:{n}")
            self.havoc()
        self.base = self.i.S.copy()
        self.base.pc = frozenset()
        done = set()
        before = {u: len(x) for u, x in self.i.contents.items()}
        for kind, _, name, t in threads(self.r):
            if kind == "thread" and t not in done:
                done.add(t)
                self.value(t, "warm:thread:" + name)
        self.reset()
        self.havoc()
        self.filled(before)
        self.base = self.i.S.copy()
        self.base.pc = frozenset()

    def call(self, name, key, start=(), **params):
        self.i.S.held = frozenset(start)
        out = self.r.call(name, key=key, sep=True, **params)
        self.exit[key] = self.i.S.held if out is not None else None
        return out

    def reset(self):
        self.i.S = self.base.copy()
        self.i.S.frames.setdefault(0, {})

    def fresh(self, name, key, start=(), **params):
        """Analyse one method from the state of an arbitrary history."""
        self.reset()
        return self.call(name, key, start, **params)

    def value(self, t, key, start=(), args=(), kwargs=(), keep=False):
        """Analyse a call of a function value (the target of a thread, for example)."""
        if not keep:
            self.reset()
        boot = self.i.stack[0]
        boot.fid = self.i.iid("boot", key)
        self.i.S.frames[boot.fid] = {}
        self.i.S.held = frozenset(start)
        s = len(self.i.events)
        out = None
        try:
            out = self.i.call_term(t, tuple(args), tuple(kwargs), self.anchor())
        except Dead:
            pass
        finally:
            boot.fid = 0
        self.r.ranges[key] = (s, len(self.i.events))
        self.exit[key] = self.i.S.held if out is not None else None
        return out

    @staticmethod
    def anchor():
        n = ast.Call(func=ast.Name(id="call", ctx=ast.Load()), args=[], keywords=[])
        n.lineno = n.col_offset = n.end_lineno = n.end_col_offset = 0
        return n

    def havoc(self):
        s0, e0 = self.r.ranges["__init__"]
        for e in self.i.events[e0:]:
            if e.kind != "setattr" or not isinstance(e.attr, str):
                continue
            for b in alts(e.base):
                if b.op == "obj" and self.i.objs[b.args[0]]["kind"] == "inst":
                    h = self.i.S.heap.setdefault(b.args[0], {})
                    old = h.get(e.attr)
                    if isinstance(old, T) and isinstance(e.value, T):
                        h[e.attr] = joinv([old, e.value])

    def filled(self, before):
        """Containers hold what the threads put into them."""
        for x in self.fields():
            if x.op == "obj" and len(self.i.contents.get(x.args[0], ())) > before.get(x.args[0], 0) and self.i.objs[x.args[0]]["kind"] in ("list", "set", "dict"):
                h = self.i.S.heap.setdefault(x.args[0], {})
                vals = {}
                for how, v in self.i.contents.get(x.args[0], ()):
                    k = {"key": "k*", "val": "v*"}.get(how, "*" if self.i.objs[x.args[0]]["kind"] != "dict" else None)
                    if k and isinstance(v, T):
                        vals.setdefault(k, []).append(v)
                for k, vs in vals.items():
                    h[k] = joinv([h[k], *vs] if k in h else vs)
                    h["items"] = None

    def fields(self):
        """{value term: (object, field)} of the containers held in instance fields."""
        out = {}
        for uid, h in self.i.S.heap.items():
            if self.i.objs[uid]["kind"] == "inst":
                for k, v in h.items():
                    if isinstance(k, str) and isinstance(v, T):
                        for x in alts(v):
                            if x.op == "obj" and self.i.objs[x.args[0]]["kind"] != "inst" or made_by(x):
                                out.setdefault(x, (uid, k))
        return out


class Tokens:
    """Dispatches typestate callbacks to the rule currently being analysed."""

    def __init__(self):
        self.rule = None

    def __call__(self, i, e):
        return self.rule(i, e) if self.rule else ((), ())

    def learn(self, i, cond, outcome):
        return self.rule.learn(i, cond, outcome) if self.rule and hasattr(self.rule, "learn") else ()

    def err(self, i, e):
        return self.rule.err(i, e) if self.rule and hasattr(self.rule, "err") else ((), ())

    def cm_exit(self, i, cm):
        return self.rule.cm_exit(i, cm) if self.rule and hasattr(self.rule, "cm_exit") else ()

    def model(self, i, recv, name, r):
        if self.rule and hasattr(self.rule, "model"):
            return self.rule.model(i, recv, name, r)
        return r


def nonempty(cond):
    """(container term, True if the condition says it is not empty) for a test of emptiness, else None."""
    if cond.op == "not":
        x = nonempty(cond.args[0])
        return (x[0], not x[1]) if x else None
    if cond.op == "call" and cond.args[0].op == "ext" and cond.args[0].args[0] in ("builtins.len", "builtins.bool", "builtins.any") and cond.args[1]:
        return cond.args[1][0], True
    if cond.op == "len" or cond.op == "dim" and len(cond.args) > 1 and cond.args[1] == 0:
        return cond.args[0], True
    if cond.op == "cmp":
        op, a, b = cond.args
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
        if a.op == "const" or a.op == "obj" and b.op != "obj" and b.op != "const":
            a, b, op = b, a, flip.get(op, op)
        n = nonempty(a) if a.op in ("call", "len", "dim") else None
        if n and b.op == "const" and isinstance(b.args[0], int):
            v = b.args[0]
            if op == "==" and v == 0 or op == "<" and v == 1 or op == "<=" and v == 0:
                return n[0], False
            if op == "!=" and v == 0 or op == ">" and v == 0 or op == ">=" and v == 1:
                return n[0], True
        return None
    if cond.op == "obj":
        return cond, True
    return None
