"""C25: a failed read or write of stored gradients is reported, never replaced or waited for."""
from __future__ import annotations

import ast

from ..files import Files
from ..offl import Harness, catches, nonempty, public, raises
from ..scen import BLOCK_PKG, blocks
from ..terms import NONE, T, alts, show, sym
from .c12 import DISK, GET, Model, last, needs

R_CALLER = "errors-reach-the-caller"
R_RECORD = "worker-errors-recorded"
R_RAISE = "waits-raise-recorded-errors"
R_FUTURE = "submitted-work-checked"
R_UNMARK = "failed-writes-unmarked"
R_ALIVE = "worker-survives-errors"
R_STALE = "no-data-stored-after-an-error"
R_CONTENT = "readers-return-file-content"
R_ALL = "every-batch-accounted-for"

META = BLOCK_PKG + "core.metadata.MetadataManager"
BLOCK = BLOCK_PKG + "block_projected_if.BlockProjectedIFAttributor"
FUTURE = {"result"}
KEEP = {"append", "add", "put", "put_nowait", "set_exception", "appendleft", "insert", "extend", "setdefault", "update"}


def run(c):
    c.rule(R_CALLER, "no public method returns normally on a path on which reading, writing or deleting stored data failed")
    c.rule(R_RECORD, "an error in the thread that writes queued data is kept for whoever waits for the write")
    c.rule(R_RAISE, "a method that has waited for queued writes returns or reads on only if no error was recorded for them")
    c.rule(R_FUTURE, "the result of work submitted to an executor is asked for before its files are read, and a failure is raised")
    c.rule(R_UNMARK, "a write taken from the queue is unmarked on every path, failed writes included, so no waiter blocks forever")
    c.rule(R_ALIVE, "an error does not end the thread that later writes depend on")
    c.rule(R_STALE, "background threads store nothing for readers on a path on which their read failed")
    c.rule(R_CONTENT, "functions that read chunks return what the files hold on every path")
    c.rule(R_ALL, "scores computed from stored gradients are returned only if every batch was found")
    with c.guard("DiskOffloadManager"):
        disk(c)
    with c.guard("MetadataManager"):
        metadata(c)
    with c.guard("BlockProjectedIFAttributor"):
        block(c)


class Errors:
    """Typestate of failed file operations: ``err`` is held while a failure has been caught and not been recorded or raised."""

    def __init__(self, io, m=None, worker=False, records=()):
        self.io, self.m, self.worker = io, m, worker
        self.records = set(records)      # containers or (object, field) that keep errors
        self.failed = set()              # operands of operations that may have failed
        self.kept = set()                # local containers that received something derived from a failure

    def err(self, i, e):
        if e is None:
            return (), ()
        if self.io(i, e):
            self.failed |= {x for v in (e.recv, *(e.args or ())) if isinstance(v, T) for x in i.expand(v)} if e.kind == "call" else set()
            return ("err", "failed"), ()
        if self.worker and self.m.is_get(e):
            return (), ("taken", "err", "failed")
        return (), ()

    def __call__(self, i, e):
        acq, rel = set(), set()
        if e.kind == "call":
            if self.worker and self.m.is_get(e):
                acq.add("taken")
                rel |= {"err", "failed"}
            if last(e) in KEEP and e.recv is not None and "err" in e.held:
                for x in alts(e.recv):
                    if x.op == "obj" and self.m is not None and x in self.m.fields:
                        if self.exc(i, e.args):
                            self.records.add(x)
                            rel.add("err")
                    elif x.op == "obj":
                        self.keep(i, x, e.args, acq, rel)
                    elif last(e) == "set_exception":
                        rel.add("err")
            if self.worker and self.io(i, e) and self.reads(i, e):
                rel.add("err")
            if last(e) in FUTURE and e.recv is not None:
                rel.add("unchecked")
        if e.kind == "item" and "err" in e.held:
            for x in alts(e.base):
                self.keep(i, x, (e.value,), acq, rel)
        if e.kind == "handler" and "err" in e.held and self.optional(i, e):
            rel.add("err")
        if "unraised" in e.held and self.clears(i, e):
            acq.add("dropped")
        if e.kind in ("substore", "setattr") and "err" in e.held and self.exc(i, (e.value,)):
            for x in alts(e.base):
                if x.op != "obj":
                    continue
                if e.kind == "setattr":
                    self.records.add((x, e.attr))
                    rel.add("err")
                elif self.m is not None and x in self.m.fields:
                    self.records.add(x)
                    rel.add("err")
                else:
                    self.keep(i, x, (e.value,), acq, rel)
        if self.worker and any(k in self.m.P for k in self.m.removed(e)):
            rel.add("taken")
        return acq, rel

    def keep(self, i, x, vals, acq, rel):
        if not self.exc(i, vals) and not any(v in self.failed for v in vals):
            return
        self.kept.add(x)
        acq.add(("in", x))
        rel.add("err")

    def clears(self, i, e):
        """The container of recorded errors is emptied or replaced."""
        if self.m is None or not self.records:
            return False
        if e.kind == "call" and last(e) in ("clear", "pop", "popleft") and e.recv is not None:
            return any(x in self.records for x in alts(e.recv))
        if e.kind == "setattr":
            own = {self.m.fields[x] for x in self.records if x in self.m.fields}
            return any((x.args[0], e.attr) in own for x in alts(e.base) if x.op == "obj") and not self.exc(i, (e.value,))
        return False

    def optional(self, i, e):
        """The failed part only looked for the value of a field; whoever needs the field raises if it is still None."""
        tries = [t for t in ast.walk(e.frame.node) if isinstance(t, ast.Try) and e.node in t.handlers]
        if not tries:
            return False
        t = tries[0]
        lo, hi = t.body[0].lineno, t.body[-1].end_lineno
        sets = set()
        for x in i.events:
            if x.kind != "setattr" or not isinstance(x.attr, str):
                continue
            for k, f in enumerate(x.stack):
                if f.node is e.frame.node:
                    n = x.node if k + 1 == len(x.stack) else x.stack[k + 1].callnode
                    if lo <= getattr(n, "lineno", 0) <= hi:
                        sets.add(x.attr)
        return bool(sets & guarded(e.frame.info.cls if e.frame.info is not None else None))

    def reads(self, i, e):
        return any(f.what == "read" for f in self.m.F(i, e))

    @staticmethod
    def exc(i, vals):
        return any(y.op == "exc" for v in vals if isinstance(v, T) for y in i.expand(v))

    def learn(self, i, cond, outcome):
        out = set()
        n = nonempty(cond)
        if n and outcome is not n[1]:
            out |= {("in", x) for x in alts(n[0])}
            if any(x in self.records for x in alts(n[0])):
                out |= {"unraised", "dropped"}
        if n and self.m is not None and outcome is not n[1] and any(x in self.m.P for x in alts(n[0])):
            out.add("waiting")
        neg = cond.op == "not"
        t = cond.args[0] if neg else cond
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.all" and t.args[1] and outcome is not neg:
            out |= {("in", x) for x in alts(t.args[1][0])}
        none = outcome
        if t.op == "cmp" and t.args[0] in ("is", "is not", "==", "!=") and t.args[2] is NONE:
            if t.args[0] in ("is not", "!="):
                none = not none
            if neg:
                none = not none
            x = t.args[1]
        else:
            x, none = t, outcome is neg
        if none and any(y.op == "exc" for y in alts(x)):
            out |= {"unraised", "dropped"}
        return out

    def swallowed(self, held):
        return "err" in held or any(isinstance(k, tuple) and k[0] == "in" for k in held)


def guarded(ci):
    """Fields some method of the class requires not to be None."""
    out = set()
    for f in ci.methods.values() if ci is not None else ():
        for n in ast.walk(f.node):
            if isinstance(n, ast.If) and any(isinstance(y, ast.Raise) for x in n.body for y in ast.walk(x)):
                out |= {x.left.attr for x in ast.walk(n.test) if isinstance(x, ast.Compare) and isinstance(x.left, ast.Attribute)
                        and any(isinstance(y, ast.Constant) and y.value is None for y in x.comparators)}
                out |= {x.operand.attr for x in ast.walk(n.test) if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and isinstance(x.operand, ast.Attribute)}
    return out


class Worker(Errors):
    def learn(self, i, cond, outcome):
        out = super().learn(i, cond, outcome)
        neg = cond.op == "not"
        t = cond.args[0] if neg else cond
        if t.op == "cmp" and t.args[2] is NONE and t.args[0] in ("is", "is not", "==", "!="):
            if outcome is not neg and t.args[0] in ("is", "==") or outcome is neg and t.args[0] in ("is not", "!="):
                if any(y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] in GET for y in i.expand(t.args[1])):
                    out = out | {"taken"}
        return out


def file_io(F):
    def io(i, e):
        if e.kind == "call" and last(e) in FUTURE and e.recv is not None and str(e.callee).startswith("."):
            return True
        return any(f.what != "look" or last(e) not in ("exists", "is_file", "stat") for f in F(i, e))
    return io


def disk(c):
    m = Model(c.repo)
    h, i = m.h, m.i
    c.scenarios.append("DiskOffloadManager after any history")
    if m.writer is None:
        c.unknown(R_RECORD, "background writer", "no thread that takes writes from a queue was recognised")
        return
    io = file_io(m.F)
    records = set()
    # the threads
    for e, name, t in m.workers:
        w = name == m.writer[0]
        rule = Worker(io, m, worker=True)
        h.tr.rule = rule
        escaped = len(i.exc_frames[-1])
        h.value(t, "t:" + name)
        h.tr.rule = None
        evs = h.r.events("t:" + name)
        esc = i.exc_frames[-1][escaped:]
        del i.exc_frames[-1][escaped:]
        ex = h.exit["t:" + name]
        if w:
            records |= rule.records
            for x in evs:
                if x.kind == "call" and m.is_get(x):
                    if "err" in x.held:
                        c.bad(R_RECORD, f"{x.fn}:get", "the thread takes the next write although the last one failed and nobody was told", x.loc)
                    else:
                        c.ok(R_RECORD, f"{x.fn}:{x.loc}")
                    if "taken" in x.held:
                        c.bad(R_UNMARK, f"{x.fn}:get", "a write may end without being unmarked: whoever waits for it waits forever", x.loc)
                    else:
                        c.ok(R_UNMARK, f"{x.fn}:{x.loc}")
            if ex is not None:
                if rule.swallowed(ex):
                    c.bad(R_RECORD, f"{name}:end", "the thread ends without telling anybody that a write failed", "")
                if "taken" in ex:
                    c.bad(R_UNMARK, f"{name}:end", "the thread may end without unmarking the write it has taken", "")
            bad = [s for s in esc if "err" in s.held or "taken" in s.held or "failed" in s.held]
            if bad:
                why = bad[0].why
                c.bad(R_ALIVE, name, "an error in a write ends the thread: writes queued later are never done" +
                      (f" (raised at {why.loc})" if why is not None else ""), why.loc if why is not None else "")
            else:
                c.ok(R_ALIVE, name)
        for x in evs if not w else ():
            if x.kind not in ("substore", "call", "setattr"):
                continue
            if x.kind == "call" and not (last(x) in KEEP and x.recv is not None):
                continue
            b = x.recv if x.kind == "call" else x.base
            tgt = [y for y in alts(b) if y in m.fields and y.op == "obj"] if x.kind != "setattr" else [y for y in alts(b) if y.op == "obj"]
            if not tgt:
                continue
            vals = (x.value,) if x.kind != "call" else x.args
            if any(y in m.P for y in tgt) or Errors.exc(i, vals) or all(isinstance(v, T) and v.op == "const" for v in vals):
                continue
            if "err" in x.held:
                c.bad(R_STALE, f"{x.fn}:{x.kind}", f"{name}: something is stored for readers on a path on which an operation failed", x.loc)
            else:
                c.ok(R_STALE, f"{x.fn}:{x.loc}")
    # public methods
    for n in h.methods:
        key = "pub:" + n
        rule = Errors(io, m, records=records)
        h.tr.rule = rule
        h.fresh(n, key, start=("unraised", "waiting", "unchecked"))
        h.tr.rule = None
        evs = h.r.events(key)
        ex = h.exit[key]
        nio = [x for x in evs if io(i, x)]
        if ex is not None and nio:
            if rule.swallowed(ex):
                c.bad(R_CALLER, n, f"{n} may return normally although an operation on stored data failed ({blame(i, rule, evs, io)})", "")
            else:
                c.ok(R_CALLER, n, f"{len(nio)} operations")
        waits = any(x.kind == "branch" and (nonempty(x.cond) or (None,))[0] is not None and any(y in m.P for y in alts(nonempty(x.cond)[0])) for x in evs)
        if waits and ex is not None:
            if "unraised" in ex and "waiting" not in ex:
                c.bad(R_RAISE, n, f"{n} waits for queued writes and returns normally even if one of them failed", "")
            else:
                c.ok(R_RAISE, n)
        if ex is not None and "dropped" in ex:
            c.bad(R_RAISE, f"{n}:dropped", f"{n} forgets the recorded errors of failed writes without raising one", "")
        if n.startswith("retrieve"):
            made_up(c, m, n, evs)
        for x in evs:
            for f in m.F(i, x):
                if f.what != "read" or not waits:
                    continue
                if "unraised" in x.held and "waiting" not in x.held:
                    c.bad(R_RAISE, f"{n}:{x.fn.rsplit('.', 1)[-1]}", f"{n}: reads stored data after waiting for writes of which some may have failed", x.loc)
                else:
                    c.ok(R_RAISE, f"{n}:{x.loc}")
                if "futures" in needs(m, f) and m.tasks:
                    if "unchecked" in x.held:
                        c.bad(R_FUTURE, f"{n}:{x.fn.rsplit('.', 1)[-1]}", f"{n}: reads a file saved in the background without asking whether saving it failed", x.loc)
                    else:
                        c.ok(R_FUTURE, f"{n}:{x.loc}")
        if n == "wait_for_async_operations" and m.tasks and ex is not None:
            if "unchecked" in ex:
                c.bad(R_FUTURE, n, "waiting for asynchronous operations does not ask whether submitted work failed", "")
            else:
                c.ok(R_FUTURE, n)
    # objects that read in the background
    for e, name, t in m.workers:
        fv = i.lookup_fv(t)
        o = fv[1] if fv is not None else None
        if o is None or o.op != "obj" or i.objs[o.args[0]]["cls"] is None or o is h.r.obj:
            continue
        ci = i.objs[o.args[0]]["cls"]
        for n, f in public(c.repo, ci).items():
            if f.is_property or f.is_static:
                continue
            key = f"obj:{ci.name}:{n}"
            rule = Errors(io, m, records=records)
            h.tr.rule = rule
            h.value(i.getattr(o, n, h.anchor()), key, args=[sym(f"{n}:{p}") for p in f.params[1:]])
            h.tr.rule = None
            evs, ex = h.r.events(key), h.exit[key]
            nio = [x for x in evs if io(i, x)]
            if ex is not None and nio:
                if rule.swallowed(ex):
                    c.bad(R_CALLER, f"{ci.name}.{n}", f"{n} may return normally although an operation on stored data failed ({blame(i, rule, evs, io)})", "")
                else:
                    c.ok(R_CALLER, f"{ci.name}.{n}", f"{len(nio)} operations")
    content(c, m)
    c.functions |= i.inlined


MAKERS = {"zeros", "ones", "full", "rand", "randn", "eye", "arange", "empty", "randint"}


def made_up(c, m, n, evs):
    """What is returned for something that was not found has no rows."""
    i = m.i
    for x in evs:
        if x.kind != "return" or not x.fn.startswith(BLOCK_PKG + "offload.disk_io.") or not isinstance(x.value, T):
            continue
        vals = []
        for y in alts(x.value):
            vals.append(y)
            if y.op == "obj":
                vals += [z for how, v in i.contents.get(y.args[0], ()) if isinstance(v, T) for z in alts(v)]
            elif y.op in ("list", "tuple"):
                vals += [z for v in y.args if isinstance(v, T) for z in alts(v)]
        bad = next((y for y in vals if fabricated(y)), None)
        if bad is not None:
            c.bad(R_CONTENT, f"{n}:{x.fn.rsplit('.', 1)[-1]}", f"{n}: may return made-up rows ({show(bad)[:70]}) for data that was not stored", x.loc)
        else:
            c.ok(R_CONTENT, f"{n}:{x.loc}")


def fabricated(y):
    """A new tensor that has rows."""
    if y.op != "call" or y.args[0].op != "ext":
        return False
    f = str(y.args[0].args[0])
    if not f.startswith("torch.") or f[6:] not in MAKERS:
        return False
    kw = dict(y.args[2]) if len(y.args) > 2 and y.args[2] else {}
    shape = [z for a in [*y.args[1], *(v for k, v in kw.items() if k == "size")] if isinstance(a, T)
             for z in ([a] if a.op not in ("tuple", "list") else a.args)]
    return bool(shape) and not any(z.op in ("const", "num") and z.args[0] == 0 for z in shape if isinstance(z, T))


def blame(i, rule, evs, io):
    hs = [x for x in evs if x.kind == "handler" and "err" in x.held]
    return f"caught at {hs[0].loc}" if hs else "caught"


def content(c, m):
    """Functions that return file content return it on every path."""
    i = m.i
    by = {}
    for x in i.events:
        if x.kind == "return" and x.fn.startswith(BLOCK_PKG + "offload.disk_io.memory_map"):
            by.setdefault(x.fn, []).append(x)
    for fn, evs in by.items():
        def reads(v):
            return isinstance(v, T) and any(y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] in (
                "numpy.fromfile", "numpy.load", "torch.load", "json.load", "json.loads", "numpy.memmap", "torch.from_file", "pickle.load")
                for y in i.expand(v, follow_lv=True))
        got = [reads(x.value) for x in evs]
        if not any(got):
            continue
        for x, g in zip(evs, got):
            if g:
                c.ok(R_CONTENT, f"{fn}:{x.loc}")
            else:
                c.bad(R_CONTENT, f"{fn}:return", f"returns {show(x.value)[:60]} instead of what the file holds", x.loc)


class MetaModel:
    """What Errors needs to know about an object without background threads."""

    def __init__(self, h):
        self.P, self.F, self.h, self.i = {}, Files(), h, h.i
        self.fields = h.fields()

    def is_get(self, e):
        return False

    def removed(self, e):
        return []


def metadata(c):
    h = Harness(c.repo, META, init=dict(cache_dir=sym("cache_dir"), layer_names=sym("layers")))
    m = MetaModel(h)
    io = file_io(m.F)
    c.scenarios.append("MetadataManager after any history")
    for n in h.methods:
        rule = Errors(io, m)
        h.tr.rule = rule
        h.fresh(n, "pub:" + n)
        h.tr.rule = None
        evs, ex = h.r.events("pub:" + n), h.exit["pub:" + n]
        nio = [x for x in evs if io(h.i, x)]
        if ex is not None and nio:
            if rule.swallowed(ex):
                c.bad(R_CALLER, "metadata:" + n, f"{n} may return normally although an operation on stored data failed ({blame(h.i, rule, evs, io)})", "")
            else:
                c.ok(R_CALLER, "metadata:" + n, f"{len(nio)} operations")
    c.functions |= h.i.inlined


def storage(i, t):
    """The value comes from the storage layer or the batch metadata."""
    return any(x.op == "call" and x.args[0].op in ("ext", "class") and str(x.args[0].args[0]).startswith(
        (BLOCK_PKG + "offload.", BLOCK_PKG + "core.metadata.")) or x.op == "class" and str(x.args[0]).startswith(BLOCK_PKG + "core.metadata.")
        for y in alts(t) for x in roots(y))


def roots(t):
    """What a chain of attributes, calls and elements starts from."""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        if x.op == "call" and x.args[0].op == "attr":
            todo.append(x.args[0].args[0])
        elif x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("builtins.zip", "builtins.enumerate", "builtins.iter", "tqdm.tqdm"):
            todo += list(x.args[1])
        elif x.op in ("attr", "elem", "sub", "T"):
            todo += [y for y in x.args[:1] if isinstance(y, T)]
        elif x.op == "phi":
            todo += list(x.args)
    return out


def block(c):
    def io(i, e):
        if e.kind == "call" and e.recv is not None and not e.d.get("fv"):
            return storage(i, e.recv)
        return e.kind == "iter" and storage(i, e.iterable)

    for s in blocks():
        rule = Errors(io)
        r = s.build(c.repo, track_exc=True, catches=catches, raises=lambda i, e: e is not None and e.kind == "iter" or raises(i, e),
                    flat=True, err=rule.err, resource=rule, learn=rule.learn, feasible=None)
        c.scenarios.append(s.name)
        ci = c.repo.cls(s.qual)
        for n in ("cache", "attribute", "compute_self_attribution"):
            if ci.find(c.repo, n) is None:
                continue
            r.i.S.held = frozenset()
            r.i.S.pc = frozenset()
            out = r.call(n, key=n, sep=True)
            evs = r.events(n)
            nio = [x for x in evs if io(r.i, x)]
            if not nio or out is None:
                continue
            if rule.swallowed(r.i.S.held):
                c.bad(R_CALLER, f"{s.name}:{n}", f"{n} may return normally although an operation on stored gradients failed ({blame(r.i, rule, evs, io)})", "")
            else:
                c.ok(R_CALLER, f"{s.name}:{n}", f"{len(nio)} operations")
            if n != "cache":
                complete(c, r, s.name, n, evs)
        c.functions |= r.i.inlined


def complete(c, r, name, n, evs):
    """Scores are filled in batch by batch: an error is raised if a batch is missing."""
    i = r.i
    loops = {x.lid for x in evs if x.kind == "iter" and len(x.stack) <= 2 and storage(i, x.iterable)}
    fills = [x for x in evs if x.kind == "substore" and set(x.loops) & loops and x.frame.info is not None and x.frame.info.name == n]
    if not fills:
        c.unknown(R_ALL, f"{name}:{n}", "no loop that fills scores from stored gradients was recognised")
        return
    changed = {y for x in evs if x.kind == "call" and x.recv is not None and set(x.loops) & loops for y in alts(x.recv) if y.op == "obj"}
    changed |= {y for x in evs if x.kind in ("substore", "delitem") and set(x.loops) & loops for y in alts(x.base) if y.op == "obj"}
    after = max(x.seq for x in fills)
    for x in evs:
        if x.kind == "raise" and x.seq > after and not set(x.loops) & loops:
            if any(y in changed or y.op in ("loopout", "psum", "ind") for t, _ in x.pc for y in i.expand(t)) or not changed:
                c.ok(R_ALL, f"{name}:{n}")
                return
    c.bad(R_ALL, f"{name}:{n}", f"{n} returns scores although stored gradients of some batches may be missing: nothing is raised for them", fills[0].loc)
