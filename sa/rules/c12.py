"""C12: stored gradients are complete before anyone is told they exist."""
from __future__ import annotations

from ..files import Files, parts
from ..offl import IO, QUEUES, Harness, made_by, nonempty, threads
from ..scen import BLOCK_PKG
from ..terms import NONE, T, alts, const, is_const, mk, show, sym

R_ORDER = "data-before-index"
R_STALE = "stale-index-removed-first"
R_MARK = "marked-before-handed-over"
R_COUNT = "one-mark-per-write"
R_UNMARK = "unmarked-after-the-write"
R_WAIT = "readers-wait"
R_FLUSH = "buffers-flushed-before-reading"
R_DONE = "waits-are-complete"
R_ALIAS = "queued-data-is-private"
R_CACHE = "read-cache-invalidated"
R_CLEAR = "index-deleted-before-data"

DISK = BLOCK_PKG + "offload.disk.DiskOffloadManager"
PUT = {"put", "put_nowait"}
GET = {"get", "get_nowait"}
REMOVERS = {"pop", "discard", "remove", "subtract", "popitem"}
ADDERS = {"add", "update", "append", "setdefault", "__setitem__"}
COPY = {"clone", "copy", "numpy", "deepcopy", "tolist", "detach_copy"}


def last(e):
    return str(e.callee).rsplit(".", 1)[-1]


def run(c):
    c.rule(R_ORDER, "the writer publishes an index only after the data it describes has been written, and writes no data afterwards")
    c.rule(R_STALE, "an index left by an earlier write is removed before its data is overwritten")
    c.rule(R_MARK, "on every path a write is marked pending before it is put on the queue of the background writers")
    c.rule(R_COUNT, "marks count the queued writes: one write ending does not unmark another with the same key")
    c.rule(R_UNMARK, "a write is unmarked, under the key it was marked with, only after its files are written")
    c.rule(R_WAIT, "public methods look at or read stored files only after pending writes have ended")
    c.rule(R_FLUSH, "methods that read chunks from disk flush or consult the buffers that have not been queued yet")
    c.rule(R_DONE, "finishing a batch range or waiting for asynchronous operations returns only when nothing is pending")
    c.rule(R_ALIAS, "what is queued shares no memory with a buffer handed back for reuse")
    c.rule(R_CACHE, "data kept from an earlier read is dropped when more is queued under the same key")
    c.rule(R_CLEAR, "clearing the cache deletes index files before the data they describe")
    with c.guard("DiskOffloadManager"):
        disk(c)


class Model:
    """Roles of the queues, marks and buffers of the disk storage, found from what the background threads do with them."""

    def __init__(self, repo, **cfg):
        self.h = h = Harness(repo, DISK, init=dict(cache_dir=sym("cache_dir")), **cfg)
        self.i = h.i
        self.F = Files()
        self.workers, self.tasks = [], []
        seen = set()
        for kind, e, name, t in threads(h.r):
            if t in seen:
                continue
            seen.add(t)
            (self.workers if kind == "thread" else self.tasks).append((e, name, t))
        self.fields = h.fields()
        # first pass over the threads
        self.writer, self.queue, self.P = None, None, {}
        self.events = {}
        for e, name, t in self.workers:
            h.value(t, "w:" + name)
            evs = h.r.events("w:" + name)
            self.events[name] = evs
            writes = [f for x in evs for f in self.F(self.i, x) if f.what == "write" and f.how == "data"]
            gets = [x for x in evs if x.kind == "call" and last(x) in GET and x.recv is not None and any(made_by(y) in QUEUES for y in alts(x.recv))]
            if writes and gets:
                self.writer = (name, t)
                first = gets[0]
                self.queue = {y for y in alts(first.recv) if made_by(y) in QUEUES}
                for x in evs:
                    for k in self.removed(x):
                        self.P[k] = x
        self.chunk_parts, self.publish = set(), {}
        self.task_parts = set()
        for evs in self.events.values():
            for x in evs:
                for f in self.F(self.i, x):
                    if f.what in ("write", "create", "move"):
                        self.chunk_parts |= parts(f.path) | (parts(f.dst) if f.dst is not None else set())
        for e, name, t in self.tasks:
            for a in list(e.args[1:]) + [v for _, v in e.kwargs]:
                self.task_parts |= parts(a)
        self.task_only = self.task_parts - self.chunk_parts
        # only containers that someone tests for emptiness tell about pending writes
        self.futures = set()

    def container(self, t):
        """Containers held in instance fields a term stands for."""
        return [x for x in alts(t) if x in self.fields and x.op == "obj"] if isinstance(t, T) else []

    def removed(self, e):
        if e.kind == "delitem":
            return self.container(e.base)
        if e.kind == "substore" and e.d.get("op") == "-":
            return self.container(e.base)
        if e.kind == "call" and last(e) in REMOVERS and e.recv is not None:
            return self.container(e.recv)
        return []

    def added(self, e):
        """[(container, key or None, True if the mark counts)]"""
        if e.kind == "substore" and e.d.get("op") != "-":
            counts = e.d.get("op") == "+" or any(x.op == "bin" and x.args[0] == "+" for x in alts(e.value) if isinstance(x, T))
            return [(x, e.index, counts) for x in self.container(e.base)]
        if e.kind == "call" and last(e) in ADDERS and e.recv is not None:
            k = e.args[0] if e.args else None
            return [(x, k, last(e) in ("append", "update")) for x in self.container(e.recv)]
        return []

    def is_put(self, e):
        return (e.kind == "call" and last(e) in PUT and e.recv is not None and self.queue is not None
                and any(x in self.queue for x in alts(e.recv)) and e.args and e.args[0] is not NONE)

    def is_get(self, e):
        return e.kind == "call" and last(e) in GET and e.recv is not None and any(x in self.queue for x in alts(e.recv))


class Writer:
    """Typestate of one write in a background thread."""

    def __init__(self, m, publish=None):
        self.m, self.publish = m, publish

    def err(self, i, e):
        if e is not None and e.kind == "call" and self.m.is_get(e):
            return (), ("done",)
        return (), ()

    def __call__(self, i, e):
        m = self.m
        if e.kind == "call" and m.is_get(e):
            return ("nodata", "stale"), ("done", "published")
        acq, rel = set(), set()
        for f in m.F(i, e):
            if f.what == "write" and f.how == "data":
                rel.add("nodata")
            if self.publish is not None:
                if f.what in ("remove", "move") and f.path in self.publish:
                    rel.add("stale")
                if f.what == "move" and f.dst in self.publish or f.what in ("write", "create") and f.how != "data" and f.path in self.publish:
                    acq.add("published")
        if any(k in m.P for k in m.removed(e)):
            acq.add("done")
        return acq, rel


def disk(c):
    m = Model(c.repo)
    c.scenarios.append("DiskOffloadManager after any history")
    c.functions |= m.i.inlined
    if m.writer is None:
        c.unknown(R_ORDER, "background writer", "no thread that takes writes from a queue was recognised")
        return
    writer(c, m)
    enqueue(c, m)
    c.functions |= m.i.inlined


def writer(c, m):
    h, i = m.h, m.i
    name, t = m.writer
    for pas in (1, 2):
        if pas == 1:
            evs = m.events[name]
            moved = {f.path for x in evs for f in m.F(i, x) if f.what == "move"}
            publish = {f.dst for x in evs for f in m.F(i, x) if f.what == "move"}
            publish |= {f.path for x in evs for f in m.F(i, x) if f.what in ("write", "create") and f.how == "index" and f.path not in moved}
            data = {f.path for x in evs for f in m.F(i, x) if f.what == "write" and f.how == "data" and f.path not in moved}
            publish -= data
        else:
            h.tr.rule = Writer(m, publish)
            h.value(t, "writer")
            evs = h.r.events("writer")
            h.tr.rule = None
    if not publish:
        c.unknown(R_ORDER, name, "no index written by the writer thread was recognised")
    for e in evs:
        for f in m.F(i, e):
            isdata = f.what == "write" and f.how == "data"
            ispub = f.what == "move" and f.dst in publish or f.what == "write" and f.how != "data" and f.path in publish
            if ispub:
                if "nodata" in e.held:
                    c.bad(R_ORDER, f"{e.fn}:publish", "an index file gets its final name on a path on which the data has not been written yet", e.loc)
                else:
                    c.ok(R_ORDER, f"{e.fn}:{e.loc}")
            if isdata:
                if "published" in e.held:
                    c.bad(R_ORDER, f"{e.fn}:data", "data is written after the index that describes it was published", e.loc)
                else:
                    c.ok(R_ORDER, f"{e.fn}:{e.loc}")
                if "stale" in e.held:
                    c.bad(R_STALE, f"{e.fn}:data", "data is overwritten while the index of an earlier write may still describe it", e.loc)
                else:
                    c.ok(R_STALE, f"{e.fn}:{e.loc}")
            if f.what in ("write", "create", "move") and m.P:
                if "done" in e.held:
                    c.bad(R_UNMARK, f"{e.fn}:write", "a file is written after the write was unmarked as pending", e.loc)
                else:
                    c.ok(R_UNMARK, f"{e.fn}:{e.loc}")
    m.wevents = evs


class Enqueue:
    """Public methods: what is marked, queued, waited for."""

    def __init__(self, m):
        self.m = m

    def __call__(self, i, e):
        m = self.m
        acq, rel = set(), set()
        if e.kind == "call":
            if m.is_put(e):
                acq |= {"unmarked", "unwaited"}
                if m.caches and "uncached" not in e.held:
                    acq.add("stale")
            if last(e) == "submit":
                acq.add("futures")
            if last(e) in ("result", "exception") and e.recv is not None and not e.args and not e.kwargs or \
                    str(e.callee) in ("concurrent.futures.wait", "concurrent.futures.as_completed") and not any(k == "timeout" for k, _ in e.kwargs or ()) and len(e.args) == 1:
                rel.add("futures")
            if last(e) == "shutdown" and not any(k == "wait" and is_const(v, False) for k, v in e.kwargs or ()) and not (e.args and is_const(e.args[0], False)):
                rel.add("futures")
            if last(e) == "join" and e.recv is not None and m.queue and any(x in m.queue for x in alts(e.recv)) and m.task_done:
                rel.add("unwaited")
        if any(k in m.P for k, _, _ in m.added(e)):
            rel.add("unmarked")
        if e.kind in ("delitem", "call") and m.caches:
            b = e.base if e.kind == "delitem" else e.recv if last(e) in REMOVERS | {"clear"} else None
            k = e.index if e.kind == "delitem" else e.args[0] if e.args and last(e) in ("pop", "discard", "remove") else None
            hit = [x for x in m.container(b) if x in m.caches] if b is not None else []
            if hit and k is not None and not any(x in m.P for x in m.container(b)) and not any(samekind(k, y) for x in hit for y in m.cachekeys.get(x, {k})):
                m.wrongkey[e.loc] = (k, e)
            elif hit:
                rel.add("stale")
                acq.add("uncached")
        return acq, rel

    def err(self, i, e):
        if e is None or e.kind != "call":
            return (), ()
        if self.m.is_put(e):
            return (), ("unmarked",) if "unmarked" not in e.held else ()
        if last(e) in ("result", "exception"):
            return (), ("futures",)
        return (), ()

    def learn(self, i, cond, outcome):
        n = nonempty(cond)
        if n and outcome is not n[1] and any(x in self.m.P for x in alts(n[0])):
            return ("unwaited",)
        return ()


def enqueue(c, m):
    h, i = m.h, m.i
    m.task_done = any(e.kind == "call" and last(e) == "task_done" for e in m.wevents)
    m.caches, m.cachekeys, m.wrongkey = set(), {}, {}
    # roles of containers, from one look at every public method
    contents = {}
    tested = set()
    for n in h.methods:
        h.fresh(n, "look:" + n)
        for e in h.r.events("look:" + n):
            for b, k, _ in m.added(e):
                v = e.value if e.kind == "substore" else None
                if v is not None and reads_file(i, v):
                    m.caches.add(b)
                    if isinstance(k, T):
                        m.cachekeys.setdefault(b, set()).update(alts(k))
            if e.kind == "branch":
                x = nonempty(e.cond)
                if x:
                    tested |= set(alts(x[0]))
    m.caches -= set(m.P)
    pend = {k: v for k, v in m.P.items() if k in tested}
    m.P = pend or m.P
    if not m.P and not m.task_done:
        c.bad(R_UNMARK, m.writer[0], "the writer thread never records that a queued write has ended", "")
        return
    rule = Enqueue(m)
    h.tr.rule = rule
    puts = {}
    buffers = set()
    logs = {}
    for n in h.methods:
        key = "run:" + n
        h.fresh(n, key, start=("unmarked", "unwaited", "futures"))
        evs = logs[n] = h.r.events(key)
        for e in evs:
            if e.kind == "call" and m.is_put(e):
                puts.setdefault(e.loc, []).append(e)
                if m.P:
                    if "unmarked" in e.held:
                        c.bad(R_MARK, f"{e.fn}:put", f"{n}: a write is queued before it is marked pending", e.loc)
                    else:
                        c.ok(R_MARK, f"{n}:{e.loc}")
                buffers |= {x for x in m.fields if x.op == "obj" and x not in m.P and x not in m.caches
                            and any(last(y) in ("pop",) and x in m.container(y.recv) for y in evs if y.kind == "call" and y.recv is not None and y.seq < e.seq and y.stack[:2] == e.stack[:2])}
                buffers |= {x for y in evs if y.kind == "delitem" and y.seq < e.seq for x in m.container(y.base) if x not in m.P and x not in m.caches}
        ex = h.exit[key]
        if ex is not None and m.caches and any(m.is_put(e) for e in evs if e.kind == "call"):
            if "stale" in ex:
                why = "".join(f" (at {loc} it is looked for under {show(k)[:60]}, but kept under other keys)" for loc, (k, _) in m.wrongkey.items())
                c.bad(R_CACHE, f"{n}:cache", f"{n}: queues data without dropping what was kept from an earlier read of the same chunk{why}", "")
            else:
                c.ok(R_CACHE, n)
    h.tr.rule = None
    marks(c, m, puts, logs)
    aliasing(c, m, puts, logs)
    readers(c, m, logs, buffers)
    clear(c, m, logs)
    finish(c, m, rule, buffers)


def reads_file(i, v):
    return any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("numpy.fromfile", "numpy.load", "torch.load", "json.load", "numpy.memmap")
               for x in i.expand(v, follow_lv=True))


def samekind(a, b):
    """Whether two dictionary keys may be the same, judged by their structure."""
    for x in alts(a):
        for y in alts(b):
            if "tuple" not in (x.op, y.op):
                if x.op == y.op == "const" and x is not y:
                    continue
                return True
            if x.op == y.op and len(x.args) == len(y.args) and all(samekind(p, q) for p, q in zip(x.args, y.args)):
                return True
            if x.op != y.op and (x if y.op == "tuple" else y).op not in ("const", "bin", "num"):
                return True
    return False


def comps(t):
    return list(t.args) if t.op == "tuple" else [t]


def marks(c, m, puts, logs):
    """Marks count writes, and the key unmarked is the key marked."""
    i = m.i
    marked = {}
    for evs in logs.values():
        for e in evs:
            for b, k, counts in m.added(e):
                if b in m.P:
                    marked.setdefault(e.loc, (e, b, k, counts))
    for loc, (e, b, k, counts) in marked.items():
        if counts:
            c.ok(R_COUNT, f"{e.fn}:{loc}")
        elif k is not None and any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in (
                "builtins.object", "uuid.uuid4", "uuid.uuid1", "builtins.next", "builtins.id") for x in i.expand(k)):
            c.ok(R_COUNT, f"{e.fn}:{loc}", "keys are unique")
        elif k is not None and k.op in ("obj",):
            c.ok(R_COUNT, f"{e.fn}:{loc}", "keys are objects made for one write")
        else:
            c.bad(R_COUNT, f"{e.fn}:mark", "two queued writes of one chunk share a mark: the first one to end unmarks both", e.loc)
    # the positions of the key's components in the queued task
    task = [comps(x) for es in puts.values() for e in es for x in alts(e.args[0]) if x.op == "tuple"]
    want = None
    for e, b, k, counts in marked.values():
        if k is None:
            continue
        for t in task:
            pos = tuple(next((n for n, y in enumerate(t) if y is x), None) for x in comps(k))
            if None not in pos:
                want = pos
    if want is None:
        return
    for e in m.wevents:
        if not any(x in m.P for x in m.removed(e)):
            continue
        k = e.index if e.kind in ("delitem", "substore") else e.args[0] if e.args else None
        if k is None:
            continue
        got = []
        for x in comps(k):
            if x.op in ("sub", "unpack", "item") and len(x.args) > 1 and isinstance(x.args[1], T) and x.args[1].op == "const":
                got.append(x.args[1].args[0])
            else:
                got.append(None)
        if None in got:
            c.unknown(R_UNMARK, f"{e.fn}:key", "which parts of the task the unmarked key is made of is not visible")
        elif tuple(got) != want:
            c.bad(R_UNMARK, f"{e.fn}:key", f"the key unmarked (parts {tuple(got)} of the task) is not the key marked (parts {want})", e.loc)
        else:
            c.ok(R_UNMARK, f"{e.fn}:key:{e.loc}")


def owners(i, t):
    """Values whose memory a tensor or list may share, seen through views."""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("phi", "mix", "lv", "loopout", "prev", "first"):
            todo += [y for y in i.lvinfo.get(x, ()) if isinstance(y, T)]
            todo += [y for y in x.args if isinstance(y, T)]
            continue
        if x.op == "call":
            f = x.args[0]
            n = f.args[1] if f.op == "attr" else f.args[0] if f.op == "ext" else ""
            if not isinstance(n, str) or n.rsplit(".", 1)[-1] in COPY or f.op == "ext":
                if f.op == "ext" and str(n).endswith(("from_numpy", "as_tensor")):
                    todo += list(x.args[1])
                else:
                    out.add(x)
                continue
            todo.append(f.args[0])
            continue
        if x.op == "T":
            todo += [y for y in x.args if isinstance(y, T)]
            continue
        if x.op == "sub":
            todo.append(x.args[0])
            continue
        out.add(x)
    return out


def aliasing(c, m, puts, logs):
    i = m.i
    returned = set()
    for evs in logs.values():
        for e in evs:
            if e.kind == "call" and last(e) in PUT and e.recv is not None and not m.is_put(e) and e.args:
                returned |= {x for x in alts(e.args[0])}
    if not returned:
        return
    mem = set()
    for b in returned:
        for x in alts(b):
            if x.op == "obj":
                for v in i.S.heap.get(x.args[0], {}).values():
                    if isinstance(v, T):
                        mem |= {y for y in owners(i, v) if y.op != "const"}
    for loc, es in puts.items():
        for e in es[:1]:
            for t in alts(e.args[0]):
                for n, x in enumerate(comps(t)):
                    o = owners(i, x)
                    hit = {y for y in o if y in mem or y.op == "attr" and any(y.args[0] is z for z in returned)}
                    whole = {y for y in o if y in returned and y is not NONE}
                    if hit:
                        c.bad(R_ALIAS, f"{e.fn}:put", f"part {n} of what is queued ({show(x)[:80]}) shares memory with a buffer that "
                              "is handed back for reuse", e.loc)
                    elif not whole:
                        c.ok(R_ALIAS, f"{e.fn}:{loc}:{n}")


def needs(m, f):
    p = parts(f.path)
    out = set()
    if p & m.task_only:
        out.add("futures")
    if not out or p & (m.chunk_parts - m.task_parts):
        out.add("unwaited")
    return out


def exempt(e, m):
    """Reads made because this object has not stored anything yet."""
    for t, v in e.pc:
        if v and t.op == "cmp" and t.args[0] == "is" and t.args[2] is NONE and t.args[1].op != "sym" and not (
                t.args[1].op == "call"):
            return True
    return False


LISTS = {"builtins.list", "builtins.sorted", "builtins.tuple", "builtins.set", "builtins.dict", "copy.copy", "builtins.reversed"}


def copies(evs):
    """{new container: call that filled it}"""
    return {e.result: e for e in evs if e.kind == "call" and str(e.callee) in LISTS and e.result is not None and e.args}


def sources(i, made, t):
    """Values an iterable lists, through copies, views and comprehensions."""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        if x in made:
            todo += list(made[x].args)
        elif x.op == "obj":
            for how, v in i.contents.get(x.args[0], ()):
                for y in alts(v):
                    if y.op in ("elem", "tuple"):
                        todo += [z for z in (y.args if y.op == "tuple" else y.args[:1]) if isinstance(z, T)]
        elif x.op in ("dictview", "phi", "elem"):
            todo += [y for y in x.args if isinstance(y, T)]
        elif x.op == "call":
            f = x.args[0]
            todo += [f.args[0]] if f.op == "attr" else [y for y in x.args[1]]
    return out


def over(i, made, e, containers, evs):
    """The event lies in a loop over what one of the containers holds."""
    for lid in e.loops:
        it = i.loopinfo.get(lid, {}).get("iter")
        if it is not None and sources(i, made, it) & containers:
            return True
        if it is not None and it.op == "unk":
            for b in evs:
                if b.kind == "branch" and lid in b.loops:
                    n = nonempty(b.cond)
                    if n and any(x in containers for x in alts(n[0])):
                        return True
    return False


def readers(c, m, logs, buffers):
    i = m.i
    for n, evs in logs.items():
        flushed = None
        made = copies(evs)
        deletes = any(f.what in ("remove", "rmtree") and e.loops for e in evs for f in m.F(i, e))
        for e in evs:
            if flushed is None and e.kind == "call" and m.is_put(e) and over(i, made, e, buffers, evs):
                flushed = e
            if e.kind == "subload" and any(x in buffers for x in alts(e.base)):
                flushed = flushed or e
            for f in m.F(i, e):
                if f.what not in ("read", "look", "remove", "rmtree") or exempt(e, m):
                    continue
                nd = needs(m, f)
                miss = nd & e.held
                what = {"unwaited": "queued writes may still be pending", "futures": "submitted saves may still be running"}
                if miss:
                    c.bad(R_WAIT, f"{n}:{e.fn.rsplit('.', 1)[-1]}:{f.what}", f"{n}: {f.what}s {show(f.path)[-70:]} while "
                          + " and ".join(what[x] for x in sorted(miss)), e.loc)
                else:
                    c.ok(R_WAIT, f"{n}:{e.loc}:{f.what}")
                if "unwaited" in nd and f.what in ("read", "look") and buffers and not deletes:
                    if flushed is None:
                        c.bad(R_FLUSH, f"{n}:{e.fn.rsplit('.', 1)[-1]}", f"{n}: reads chunks from disk although buffers that were not queued "
                              "yet may hold the data", e.loc)
                    else:
                        c.ok(R_FLUSH, f"{n}:{e.loc}")


def clear(c, m, logs):
    i = m.i
    evs = logs.get("clear_cache")
    if not evs:
        c.unknown(R_CLEAR, "clear_cache", "not found")
        return
    seen = False
    made = copies(evs)
    for e in evs:
        for f in m.F(i, e):
            if f.what == "rmtree":
                seen = True
                c.bad(R_CLEAR, "clear_cache:rmtree", "a directory tree is deleted in the order the file system lists it: an index may outlive its data", e.loc)
            if f.what != "remove":
                continue
            its = [i.loopinfo[l]["iter"] for l in e.loops if l in i.loopinfo]
            src = set().union(*[sources(i, made, x) for x in its]) if its else set()
            lst = [y for y in src if y.op == "call" and (y.args[0].op == "attr" and y.args[0].args[1] == "iterdir"
                   or y.args[0].op == "ext" and y.args[0].args[0] in ("os.listdir", "os.scandir"))]
            if not lst:
                continue
            seen = True
            words = {p for t, v in e.pc for p in parts(t)} | {p for x in its for p in parts(x)}
            if any(x in made and str(made[x].callee) == "builtins.sorted" for x in src) or any(
                    y.kind == "call" and last(y) == "sort" and y.recv in src for y in evs):
                c.ok(R_CLEAR, f"clear_cache:{e.loc}", "sorted")
            elif any(w in p for p in words for w in ("json", "mmap", "metadata")):
                c.ok(R_CLEAR, f"clear_cache:{e.loc}", "chosen by name")
            elif any(i.loopinfo[l]["iter"] in lst for l in e.loops if l in i.loopinfo):
                c.bad(R_CLEAR, "clear_cache:order", "files are deleted in the order the file system lists them: an index may outlive its data", e.loc)
            else:
                c.unknown(R_CLEAR, "clear_cache", "the order of deletion is not visible")
    if not seen:
        c.unknown(R_CLEAR, "clear_cache", "no deletion of listed files was recognised")


def finish(c, m, rule, buffers):
    h, i = m.h, m.i
    for name, tok in (("finish_batch_range_processing", ("unwaited",)), ("wait_for_async_operations", ("unwaited", "futures"))):
        if name not in h.methods:
            continue
        h.tr.rule = rule
        h.reset()
        if name.startswith("finish"):
            h.call("start_batch_range_processing", "start:" + name)
        out = h.call(name, "done:" + name, start=("unwaited", "futures", "unmarked"))
        h.tr.rule = None
        ex = h.exit["done:" + name]
        if ex is None:
            continue
        miss = set(tok) & ex
        if miss:
            c.bad(R_DONE, name, f"{name} may return while " + " and ".join(
                {"unwaited": "queued writes are pending", "futures": "submitted saves are running"}[x] for x in sorted(miss)), "")
        else:
            c.ok(R_DONE, name)
        if name.startswith("finish") and buffers:
            evs = h.r.events("done:" + name)
            made = copies(evs)
            if any(e.kind == "call" and m.is_put(e) and over(i, made, e, buffers, evs) for e in evs):
                c.ok(R_DONE, name + ":flush")
            else:
                c.bad(R_DONE, name + ":flush", f"{name} does not queue every buffer that is still in memory", "")
