"""C13: state shared with background threads is accessed under one lock, and locks cannot be left or deadlock."""
from __future__ import annotations

import ast

from ..files import Files
from ..offl import Harness, lock_of, made_by, public
from ..scen import BLOCK_PKG
from ..terms import FALSE, NONE, T, alts, mk, show, sym
from .c12 import GET, Model, last
from .c25 import META

R_SHARED = "shared-fields-under-one-lock"
R_GUARD = "guarded-fields-always-guarded"
R_KEY = "entries-guarded-by-their-own-lock"
R_START = "fields-exist-before-the-thread"
R_LEFT = "locks-released-on-every-exit"
R_AGAIN = "locks-not-taken-twice"
R_ORDER = "one-lock-order"
R_BLOCK = "no-waiting-with-a-needed-lock"

SYNC = ("queue.", "threading.", "concurrent.futures.", "multiprocessing.")
MUTATE = {"append", "add", "pop", "popitem", "clear", "remove", "discard", "update", "extend", "insert", "setdefault", "subtract",
          "appendleft", "popleft", "sort", "reverse", "move_to_end", "difference_update", "__setitem__", "__delitem__"}
READ = {"get", "items", "keys", "values", "copy", "count", "index", "most_common", "elements", "total", "__contains__", "__len__", "__getitem__"}
SIZES = {"builtins.len", "builtins.list", "builtins.sorted", "builtins.set", "builtins.dict", "builtins.tuple", "builtins.any", "builtins.all",
         "builtins.sum", "builtins.max", "builtins.min", "builtins.iter", "builtins.bool"}
WAITS = {"join", "result", "wait", "put", "shutdown"}


def run(c):
    c.rule(R_SHARED, "every access to a field that a background thread uses and someone changes is made under one common lock")
    c.rule(R_GUARD, "a changing container that is used under its lock nearly everywhere is used under it everywhere")
    c.rule(R_KEY, "where every entry of a container has a lock of its own, an entry is used under its own lock, not another entry's")
    c.rule(R_START, "fields a thread uses right away are set before the thread is started")
    c.rule(R_LEFT, "no lock is still held when a method or thread is left, normally or by an exception")
    c.rule(R_AGAIN, "a lock that is held is not taken again")
    c.rule(R_ORDER, "locks are never taken in opposite orders")
    c.rule(R_BLOCK, "nobody waits for another thread while holding a lock that thread takes")
    with c.guard("DiskOffloadManager"):
        disk(c)
    with c.guard("MetadataManager"):
        h = Harness(c.repo, META, init=dict(cache_dir=sym("cache_dir"), layer_names=sym("layers")), loads=True)
        c.scenarios.append("MetadataManager after any history")
        lk = Locks(h)
        for n in h.methods:
            h.tr.rule = lk
            lk.left(c, "metadata:" + n, lambda n=n: h.fresh(n, "c13:" + n), "c13:" + n)
            h.tr.rule = None
            lk.edges("metadata:" + n, h.r.events("c13:" + n))
        lk.check(c)
        c.functions |= h.i.inlined


class Locks:
    """Which lock a term is, what is held, and in which order locks are taken."""

    def __init__(self, h):
        self.h, self.i = h, h.i
        self.names = {}
        for uid, hp in h.i.S.heap.items():
            ob = h.i.objs[uid]
            if ob["kind"] == "inst" and ob["cls"] is not None:
                for k, v in hp.items():
                    if isinstance(k, str) and isinstance(v, T):
                        for x in alts(v):
                            if str(made_by(x) or "").startswith("threading."):
                                self.names.setdefault(x, set()).add((ob["cls"].qual, k))
                            elif x.op == "obj":
                                self.names.setdefault(mk("locks", x), set()).add((ob["cls"].qual, k + "[]"))
        self.taken = {}       # lock name -> {lock taken while it is held: event}
        self.again = []
        self.waits = []
        self.used = {}        # who -> locks

    def name(self, t):
        l = lock_of(t) if isinstance(t, T) else None
        if l is None:
            return None
        n = self.names.get(l)
        return min(n) if n else ("local", l.id)

    def kind(self, t):
        return {made_by(x) for x in alts(t)}

    def held(self, e):
        out = set()
        for x in e.ctx:
            n = self.name(x)
            if n:
                out.add(n)
        return out | {k[1] for k in e.held if isinstance(k, tuple) and k[0] == "lock"}

    def keys(self, e):
        """Entries of tables of locks that are held: [(table, key)]."""
        out = []
        for x in e.ctx:
            for y in alts(x) if isinstance(x, T) else ():
                if y.op == "sub" and made_by(y) is None:
                    n = self.name(y)
                    if n and n[0] != "local" and isinstance(y.args[1], T):
                        out.append((n, y.args[1]))
        return out

    def __call__(self, i, e):
        if e.kind == "call" and e.recv is not None and last(e) in ("acquire", "release"):
            n = self.name(e.recv)
            if n:
                return ((("lock", n),), ()) if last(e) == "acquire" else ((), (("lock", n),))
        return (), ()

    def err(self, i, e):
        if e is not None and e.kind == "call" and e.recv is not None and last(e) == "acquire":
            n = self.name(e.recv)
            return (), ((("lock", n),) if n else ())
        return (), ()

    def learn(self, i, cond, outcome):
        neg = cond.op == "not"
        t = cond.args[0] if neg else cond
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "acquire" and outcome is neg:
            n = self.name(t.args[0].args[0])
            return {("lock", n)} if n else ()
        return ()

    def left(self, c, who, call, key):
        i = self.i
        before = len(i.exc_frames[-1])
        call()
        esc = i.exc_frames[-1][before:]
        del i.exc_frames[-1][before:]
        ex = self.h.exit.get(key)
        bad = set()
        for held, how in [(ex, "returns")] + [(s.held, "fails") for s in esc]:
            for k in held or ():
                if isinstance(k, tuple) and k[0] == "lock":
                    bad.add((k[1], how))
        for n, how in sorted(bad, key=str):
            c.bad(R_LEFT, f"{who}:{n[-1]}", f"{who}: {n[-1]} may still be held when it {how}", "")
        if not bad:
            c.ok(R_LEFT, who)

    def edges(self, who, evs):
        for e in evs:
            n = None
            if e.kind == "with":
                n, t = self.name(e.cm), e.cm
            elif e.kind == "call" and e.recv is not None and last(e) == "acquire":
                n, t = self.name(e.recv), e.recv
            held = self.held(e)
            if n:
                self.used.setdefault(who, set()).add(n)
                if n in held and "threading.RLock" not in self.kind(t):
                    self.again.append((who, n, e))
                for h in held - {n}:
                    self.taken.setdefault(h, {}).setdefault(n, (who, e))
            if held and e.kind == "call" and last(e) in WAITS | {"sleep"}:
                self.waits.append((who, held, e))

    def check(self, c):
        for who, n, e in self.again:
            c.bad(R_AGAIN, f"{e.fn}:{n[-1]}", f"{who}: {n[-1]} is taken while it is already held: this blocks forever", e.loc)
        if not self.again:
            for who in self.used:
                c.ok(R_AGAIN, who)
        # cycles
        seen = set()
        for a in self.taken:
            todo, path = [a], set()
            while todo:
                x = todo.pop()
                for y, (who, e) in self.taken.get(x, {}).items():
                    if y == a and frozenset((a, x)) not in seen:
                        seen.add(frozenset((a, x)))
                        c.bad(R_ORDER, f"{a[-1]}:{x[-1]}", f"{a[-1]} is taken while {x[-1]} is held ({who}), elsewhere the other way round: "
                              "two threads can block each other forever", e.loc)
                    if y not in path:
                        path.add(y)
                        todo.append(y)
        if not seen:
            for a in self.taken or {"none": None}:
                c.ok(R_ORDER, str(a))


def guarded(c, f, xs):
    """Fields no thread of this package uses, but which have a lock for callers with several threads."""
    use = [x for x in xs if x["how"] in ("r", "w", "set")]
    if not any(x["how"] != "r" for x in use):
        return
    locs = {}
    for x in use:
        locs.setdefault((x["e"].loc, x["how"]), []).append(x)
    count = {}
    for xs in locs.values():
        for l in set.intersection(*[x["locks"] for x in xs]):
            if l[0] != "local" and not l[-1].endswith("[]"):
                count[l] = count.get(l, 0) + 1
    for l, n in count.items():
        if n < 0.75 * len(locs) or n < 4:
            continue
        for x in use:
            if l in x["locks"]:
                c.ok(R_GUARD, f"{short(f)}:{x['e'].loc}")
            else:
                c.bad(R_GUARD, f"{short(f)}:{x['e'].fn.rsplit('.', 1)[-1]}",
                      f"{short(f)} is {'read' if x['how'] == 'r' else 'changed'} without {l[-1]}, which guards it elsewhere ({x['who']})", x["e"].loc)


def disk(c):
    m = Model(c.repo, loads=True)
    h, i = m.h, m.i
    c.scenarios.append("DiskOffloadManager after any history")
    if not m.workers:
        c.unknown(R_SHARED, "threads", "no background thread was recognised")
        return
    lk = Locks(h)
    acc = {}           # (class, field) -> [(who, is thread, many, w, locks, e, after_get)]
    owners = {}
    F = Fields(m)
    puts = [x for k in h.r.ranges for x in h.r.events(k) if m.queue and m.is_put(x)]
    for e, name, t in m.workers + m.tasks:
        key = "t:" + name
        task = (e, name, t) in m.tasks
        h.tr.rule = lk
        lk.left(c, "thread " + name, lambda: h.value(t, key, args=tuple(e.args[1:]) if task else ()), key)
        h.tr.rule = None
        evs = [x for x in h.r.events(key) if not never(m, x, puts)]
        lk.edges("thread " + name, evs)
        F.collect(acc, evs, "thread " + name, True, bool(e.loops) or task, lk)
        fv = i.lookup_fv(t)
        if fv is not None and fv[1] is not None and fv[1].op == "obj" and not task:
            owners.setdefault(fv[1], []).append((e, name, evs))
    for n in h.methods:
        key = "c13:" + n
        h.tr.rule = lk
        lk.left(c, n, lambda: h.fresh(n, key), key)
        h.tr.rule = None
        evs = h.r.events(key)
        lk.edges(n, evs)
        F.collect(acc, evs, n, False, False, lk)
    for o, ths in owners.items():
        ci = i.objs[o.args[0]]["cls"]
        if ci is None or o is h.r.obj:
            continue
        for n, f in public(c.repo, ci).items():
            if f.is_property or f.is_static:
                continue
            key = f"c13:{ci.name}:{n}"
            h.tr.rule = lk
            lk.left(c, f"{ci.name}.{n}", lambda: h.value(i.getattr(o, n, h.anchor()), key, args=[sym(f"{n}:{p}") for p in f.params[1:]]), key)
            h.tr.rule = None
            evs = h.r.events(key)
            lk.edges(f"{ci.name}.{n}", evs)
            F.collect(acc, evs, f"{ci.name}.{n}", False, False, lk)
    lk.check(c)
    waits(c, lk, h)
    shared(c, m, acc)
    own_locks(c, F, acc)
    starts(c, m, owners)
    c.functions |= i.inlined


def never(m, e, puts):
    """The event needs a queued value to be something no one queues."""
    i = m.i
    for t, v in e.pc:
        neg = t.op == "not"
        x = t.args[0] if neg else t
        if x.op != "cmp" or x.args[0] not in ("is", "is not") or x.args[2] is not NONE:
            continue
        isnone = (x.args[0] == "is") == (v is not neg)
        for y in alts(x.args[1]):
            if y.op != "sub" or not (y.args[0].op == "call" and y.args[0].args[0].op == "attr" and y.args[0].args[0].args[1] in GET):
                continue
            if not (isinstance(y.args[1], T) and y.args[1].op == "const"):
                continue
            k = y.args[1].args[0]
            vals = []
            for p in puts:
                for z in i.expand(p.args[0]):
                    if z.op == "tuple" and isinstance(k, int) and k < len(z.args):
                        vals.append(z.args[k])
                        break
                else:
                    vals.append(None)
            if vals and all(isinstance(z, T) and z is NONE for z in vals) and not isnone:
                return True
    return False


class Fields:
    """Accesses to instance fields and to the containers they hold."""

    def __init__(self, m):
        self.m, self.i = m, m.i
        self.of = {}
        for t, (uid, k) in m.h.fields().items():
            ci = self.i.objs[uid]["cls"]
            if ci is not None:
                self.of.setdefault(t, (ci.qual, k))

    def sync(self, t):
        return any(str(made_by(x) or "").startswith(SYNC) for x in alts(t)) if isinstance(t, T) else False

    def container(self, t, deep=False):
        out = []
        for x in alts(t) if isinstance(t, T) else ():
            while True:
                if x in self.of and not self.sync(x):
                    if not str(made_by(x) or "").startswith(SYNC):
                        out.append(self.of[x])
                    break
                if deep and x.op == "sub":
                    x = x.args[0]
                    continue
                break
        return out

    def inst(self, t):
        for x in alts(t) if isinstance(t, T) else ():
            if x.op == "obj" and self.i.objs[x.args[0]]["kind"] == "inst" and self.i.objs[x.args[0]]["cls"] is not None:
                yield x, self.i.objs[x.args[0]]["cls"].qual

    def access(self, e):
        """[(field, 'w' / 'r' / 'ref', value)]"""
        d = e.d
        if e.kind == "aug" and d["target"][0] == "attr":
            return [((q, d["target"][2]), "set", None, x) for x, q in self.inst(d["target"][1])]
        if e.kind in ("load", "setattr", "delattr") and isinstance(d.get("attr"), str):
            return [((q, d["attr"]), "ref" if e.kind == "load" else "set", d.get("value"), x) for x, q in self.inst(d.get("base"))]
        if e.kind in ("substore", "delitem", "inplace"):
            return [(f, "w", None, None) for f in self.container(d.get("base"), True)]
        if e.kind in ("subload", "contains"):
            return [(f, "r", None, None) for f in self.container(d.get("base"))]
        if e.kind == "iter":
            return [(f, "r", None, None) for f in self.container(d.get("iterable"))]
        if e.kind == "branch":
            t = e.cond.args[0] if e.cond.op == "not" else e.cond
            test = getattr(e.node, "test", e.node)
            names = {x.attr for x in ast.walk(test) if isinstance(x, ast.Attribute)}
            return [(f, "r", None, None) for f in self.container(t) if f[1] in names]
        if e.kind == "call":
            if e.recv is not None and last(e) in MUTATE:
                return [(f, "w", None, None) for f in self.container(e.recv, True)]
            if e.recv is not None and last(e) in READ:
                return [(f, "r", None, None) for f in self.container(e.recv)]
            if str(e.callee) in SIZES:
                return [(f, "r", None, None) for a in e.args for f in self.container(a)]
        return []

    def collect(self, acc, evs, who, thread, many, lk):
        got = False
        loaded, put = {}, {}      # field -> when it was last read / replaced
        for e in evs:
            if e.kind == "call" and last(e) in GET and e.recv is not None and self.m.queue and any(x in self.m.queue for x in alts(e.recv)):
                got = True
            for f, how, v, o in self.access(e):
                if building(self.i, e, f[0] if o is None else self.i.objs[o.args[0]]["cls"].qual):
                    continue
                if how == "ref":
                    loaded[f] = e.seq
                elif how == "set":
                    put[f] = e.seq
                elif put.get(f, -1) > loaded.get(f, -1):
                    continue      # what was taken out of the field is no longer shared
                acc.setdefault(f, []).append(dict(who=who, thread=thread, many=many, how=how, locks=lk.held(e), e=e, got=got, value=v,
                                                keys=lk.keys(e)))

    def entry(self, e, f):
        """The key of the entry of the field's container that the access is about."""
        d = e.d
        if e.kind in ("substore", "delitem", "subload"):
            b, k = d.get("base"), d.get("index")
        elif e.kind == "contains":
            b, k = d.get("base"), d.get("value")
        elif e.kind == "call" and e.recv is not None and last(e) in ("pop", "get", "setdefault") and e.args:
            b, k = e.recv, e.args[0]
        else:
            return None
        return k if isinstance(k, T) and f in self.container(b) else None


def building(i, e, qual):
    """The access is made by the constructor of the object."""
    ci = i.repo.cls(qual)
    mro = [k.qual for k in ci.mro(i.repo)] if ci is not None else [qual]
    return any(f.info is not None and f.info.name == "__init__" and f.info.cls is not None and f.info.cls.qual in mro for f in e.stack)


def short(f):
    return f[0].rsplit(".", 1)[-1] + "." + f[1]


def shared(c, m, acc):
    for f, xs in sorted(acc.items()):
        thr = [x for x in xs if x["thread"]]
        if not thr:
            guarded(c, f, xs)
            continue
        sets = [x for x in xs if x["how"] == "set"]
        muts = [x for x in xs if x["how"] == "w"]
        if not sets and not muts:
            continue
        users = {x["who"] for x in xs}
        if len(users) == 1 and not any(x["many"] for x in xs):
            continue
        if not muts and flag(sets):
            c.ok(R_SHARED, short(f), "a flag that is only set to constants")
            continue
        if not muts and once(m, f, sets, thr):
            c.ok(R_SHARED, short(f), "set once, before the first write is queued")
            continue
        use = [x for x in xs if x["how"] != "ref" or sets]
        if not any(x["thread"] for x in use):
            continue
        common = set.intersection(*[x["locks"] for x in use])
        common = {l for l in common if l[0] != "local"}
        if common:
            c.ok(R_SHARED, short(f), f"{len(use)} accesses under {min(common)[-1]}")
            continue
        count = {}
        for x in use:
            for l in x["locks"]:
                if l[0] != "local":
                    count[l] = count.get(l, 0) + 1
        if not count:
            x = next((y for y in use if y["how"] != "ref"), use[0])
            c.bad(R_SHARED, short(f), f"{short(f)} is shared with {thr[0]['who']} and changed without any lock ({x['who']})", x["e"].loc)
            continue
        best = max(sorted(count), key=lambda l: count[l])
        for x in use:
            if best not in x["locks"]:
                c.bad(R_SHARED, f"{short(f)}:{x['e'].fn.rsplit('.', 1)[-1]}",
                      f"{short(f)} is {'read' if x['how'] in ('r', 'ref') else 'changed'} without {best[-1]}, which guards it elsewhere ({x['who']})", x["e"].loc)
            else:
                c.ok(R_SHARED, f"{short(f)}:{x['e'].loc}")


def own_locks(c, F, acc):
    for f, xs in sorted(acc.items()):
        pairs = {}
        for x in xs:
            k = F.entry(x["e"], f)
            if k is not None:
                for l, lk in x["keys"]:
                    pairs.setdefault(l, []).append((x, bool(set(alts(k)) & set(alts(lk))), k, lk))
        if any(l[0] != "local" and not l[-1].endswith("[]") for l in set.intersection(*[x["locks"] for x in xs if x["how"] != "ref"] or [set()])):
            continue
        for l, ps in pairs.items():
            if 2 * len({x["e"].loc for x, same, *_ in ps if same}) < len({x["e"].loc for x, *_ in ps}):
                continue      # another scheme than one lock per entry
            for x, same, k, lk in ps:
                if same:
                    c.ok(R_KEY, f"{short(f)}:{x['e'].loc}")
                else:
                    c.bad(R_KEY, f"{short(f)}:{x['e'].fn.rsplit('.', 1)[-1]}",
                          f"the entry {show(k)} of {short(f)} is used under the lock {l[-1]} of {show(lk)} ({x['who']})", x["e"].loc)


def flag(sets):
    return bool(sets) and all(x["e"].kind == "setattr" and not counts(x, sets) and isinstance(x["value"], T) and all(y.op == "const" for y in alts(x["value"]))
                              for x in sets)


def counts(x, sets):
    """The assignment is the second half of ``field += value``."""
    return any(y["e"].kind == "aug" and y["e"].loc == x["e"].loc for y in sets)


def once(m, f, sets, thr):
    """Callers set the field only while it is None; threads only read it after they took something from the queue."""
    if any(x["thread"] for x in sets) or not all(x["got"] for x in thr):
        return False
    for x in sets:
        ok = False
        for t, v in x["e"].pc:
            neg = t.op == "not"
            y = t.args[0] if neg else t
            if y.op == "cmp" and y.args[0] in ("is", "is not", "==", "!=") and y.args[2] is NONE:
                if (y.args[0] in ("is", "==")) == (v is not neg):
                    ok = True
        if not ok:
            return False
    return True


def waits(c, lk, h):
    n = 0
    for who, held, e in lk.waits:
        other = set()
        for w, ls in lk.used.items():
            if w != who and (w.startswith("thread ") or who.startswith("thread ")):
                other |= ls
        hit = held & other
        if last(e) in ("wait", "wait_for") and e.recv is not None and lk.name(e.recv):
            hit = hit - {lk.name(e.recv)}      # a condition releases its lock while waiting
        if not hit:
            continue
        w = last(e)
        if w in ("join", "put") and not any(str(made_by(x) or "").startswith(SYNC) for x in alts(e.recv) if e.recv is not None):
            if e.recv is None or any(x.op == "const" for x in alts(e.recv)):
                continue
        if w == "put" and any(k == "block" and v is FALSE for k, v in e.kwargs):
            continue
        if w == "sleep":
            if not e.loops or not whole(lk, h, e, hit):
                continue
        n += 1
        c.bad(R_BLOCK, f"{e.fn}:{w}", f"{who}: waits ({w}) while holding {min(hit)[-1]}, which the thread it waits for takes", e.loc)
    if not n:
        for who in lk.used:
            c.ok(R_BLOCK, who)


def whole(lk, h, e, hit):
    """The lock is held during all of the innermost loop around the event."""
    lid = e.loops[-1]
    return all(hit & lk.held(x) for x in h.i.events if x.loops and lid in x.loops and x.seq >= 0)


def starts(c, m, owners):
    i = m.i
    for o, ths in owners.items():
        cls = i.objs[o.args[0]]["cls"]
        for e, name, evs in ths:
            early = set()
            for x in evs:
                if m.queue and x.kind == "call" and last(x) in GET and x.recv is not None and any(y in m.queue for y in alts(x.recv)):
                    break
                if x.kind == "load" and any(y is o for y in alts(x.base)):
                    early.add(x.attr)
            t = e.d.get("result")
            st = [x for x in i.events if x.kind == "call" and last(x) == "start" and x.recv is not None and any(y is t for y in alts(x.recv))]
            if not st:
                continue
            s = st[0]
            frame = next((f for f in s.stack if f.info is not None and f.info.name == "__init__" and f.info.cls is not None and f.info.cls.qual == cls.qual), None)
            if frame is None:
                continue
            late = {}
            for x in i.events:
                if x.seq > s.seq and x.kind == "setattr" and isinstance(x.attr, str) and any(y is o for y in alts(x.base)) and any(f is frame or f.node is frame.node for f in x.stack):
                    late.setdefault(x.attr, x)
            first = {x.attr for x in i.events if x.seq < s.seq and x.kind == "setattr" and isinstance(x.attr, str) and any(y is o for y in alts(x.base))}
            bad = [k for k in early if k in late and k not in first]
            for k in bad:
                c.bad(R_START, f"{cls.name}.{k}", f"{k} is set after {name}, which uses it, was started", late[k].loc)
            if not bad:
                c.ok(R_START, f"{cls.name}:{name}", f"{len(early)} fields")
