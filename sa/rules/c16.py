"""C16: shuffled loaders are reported before they are used."""
from __future__ import annotations

from ..drive import FULL, TEST, TRAIN
from ..scen import blocks, table
from ..terms import T, alts, show

R_WARN = "warned-before-first-batch"
R_COND = "shuffle-condition"
LOADERS = {TRAIN: "train_dataloader", TEST: "test_dataloader", FULL: "full_train_dataloader"}
# phases in which samples are indexed by the loader's order
INDEXED_CACHE = ("TRAK", "Block")
WRAP = ("enumerate", "zip", "tqdm", "iter", "list", "tuple", "islice", "chain", "trange", "reversed", "cycle")
PASSIVE = ("len", "isinstance", "hasattr", "getattr", "type", "id", "warn", "warning", "info", "debug", "str", "repr",
           "format", "print", "setattr", "callable", "bool", "warn_explicit", "vars", "dir")


def run(c):
    c.rule(R_WARN, "before a loader whose samples are indexed by position yields its first batch, a warning is issued "
                   "on every path on which its sampler is a shuffling one")
    c.rule(R_COND, "the warning is issued for every sampler class that permutes the data")
    for s in table() + blocks():
        c.scenarios.append(s.name)
        with c.guard(s.name):
            r = s.build(c.repo)
            c.functions |= r.i.inlined
            for key in r.ranges:
                if key == "__init__":
                    continue
                if key == "cache" and not s.name.startswith(INDEXED_CACHE):
                    continue
                phase(c, s, r, key)
    c.need(R_WARN, 15)


def unwrap(i, t, depth=0, seen=None):
    """Loader symbols a term draws batches from when it is iterated."""
    seen = set() if seen is None else seen
    if t in seen or depth > 20 or not isinstance(t, T):
        return set()
    seen.add(t)
    if t in LOADERS:
        return {t}
    out = set()
    if t.op in ("phi", "or"):
        for a in t.args:
            out |= unwrap(i, a, depth + 1, seen)
    elif t.op == "lv" and t in i.lvinfo:
        for a in i.lvinfo[t]:
            out |= unwrap(i, a, depth + 1, seen)
    elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].rsplit(".", 1)[-1] in WRAP:
        for a in list(t.args[1]) + [v for _, v in t.args[2]]:
            out |= unwrap(i, a, depth + 1, seen)
    return out


def reads(r, key):
    """(loader, event): points where a loader's batches are read."""
    for e in r.events(key):
        if e.kind == "iter":
            for l in unwrap(r.i, e.iterable):
                yield l, e
        elif e.kind == "call":
            name = str(e.callee).rsplit(".", 1)[-1]
            opaque = e.result is not None and e.result.op == "call"
            if not opaque or name in PASSIVE or (name in WRAP and name not in ("iter", "list", "tuple")):
                continue
            terms = [a for a in e.args if isinstance(a, T)] + [v for _, v in (e.kwargs or ()) if isinstance(v, T)]
            if e.d.get("bound"):
                terms += [v for v in e.bound.values() if isinstance(v, T)]
            if name not in ("iter", "list", "tuple") and e.callee not in r.i.cfg.opaque and \
                    not str(e.callee).startswith(tuple(r.i.cfg.opaque_mod)):
                continue
            for t in terms:
                for l in unwrap(r.i, t):
                    yield l, e


def warnings(r, key):
    for e in r.events(key, "call"):
        if str(e.callee).rsplit(".", 1)[-1] in ("warn", "warning", "warn_explicit"):
            yield e


def sampler_of(i, t):
    """Loaders whose sampler a condition inspects."""
    out = set()
    for x in i.expand(t):
        if x.op == "attr" and x.args[1] == "sampler":
            out |= {l for l in LOADERS if l in set(i.expand(x.args[0]))}
    return out


def mentions(i, t):
    return {l for l in LOADERS if l in set(i.expand(t))}


SHUFFLERS = ("RandomSampler", "SubsetRandomSampler")


def classes(i, t):
    """Last names of the classes an isinstance condition tests, or None when not an isinstance test."""
    for x in i.expand(t):
        if x.op == "isinstance":
            out = set()
            for y in i.expand(x.args[1]):
                if y.op in ("ext", "class", "func") and isinstance(y.args[0], str):
                    out.add(y.args[0].rsplit(".", 1)[-1])
            return out
    return None


def phase(c, s, r, key):
    i = r.i
    first = {}
    for l, e in reads(r, key):
        if l not in first or e.seq < first[l].seq:
            first[l] = e
    ws = list(warnings(r, key))
    for l, e in first.items():
        if key == "main" and l is FULL and s.roles.get("train") is not FULL:
            continue   # the full training set is summed over, not indexed, when attributing a subset
        cons = f"{s.name}:{key}:{LOADERS[l]}"
        mine = []
        for w in ws:
            conds = [(cd, v) for cd, v in w.pc]
            if any(l in sampler_of(i, cd) for cd, v in conds):
                mine.append(w)
        if not mine:
            c.bad(R_WARN, cons, f"{LOADERS[l]} is read at {e.loc} and no warning is issued when it shuffles", e.loc)
            continue
        early = [w for w in mine if w.seq < e.seq]
        if not early:
            c.bad(R_WARN, cons, f"the shuffle warning is issued after {LOADERS[l]} was first read", mine[0].loc)
            continue
        # conditions other than the sampler test must also hold whenever the loader is read
        okd, why = False, None
        for w in early:
            extra = [(cd, v) for cd, v in w.pc if l not in sampler_of(i, cd) and (cd, v) not in e.pc
                     and l not in mentions(i, cd)]
            inloop = [x for x in set(w.loops) - set(e.loops) if not (
                (it := i.loopinfo.get(x, {}).get("iter")) is not None and l in literal(i, it))]
            if not extra and not inloop:
                okd = True
                break
            why = "; ".join(f"{show(cd, 5)} is {v}" for cd, v in extra) or "a loop runs"
        if not okd:
            c.bad(R_WARN, cons, f"the shuffle warning for {LOADERS[l]} is only issued when {why}", early[0].loc)
            continue
        c.ok(R_WARN, cons)
        # which samplers count as shuffling
        fc = f"{early[0].fn.rsplit('.', 1)[1]}"
        for cls in SHUFFLERS:
            got = []
            for w in early:
                vs = [(verdict(i, cd, cls), v) for cd, v in w.pc if l in sampler_of(i, cd)]
                got.append(None if any(x is None for x, _ in vs) else all(x == v for x, v in vs))
            if any(got):
                c.ok(R_COND, f"{fc}:{cls}")
            elif None in got:
                c.unknown(R_COND, f"{fc}:{cls}", "the condition on the sampler is not understood")
            else:
                c.bad(R_COND, f"{fc}:{cls}", f"no warning for a loader with a {cls}", early[0].loc)


def literal(i, t):
    """Members of a tuple or list display that is iterated over."""
    out = set()
    for x in alts(t):
        if x.op in ("tuple", "list"):
            out |= set(x.args)
        elif x.op == "obj":
            for y in i.contents.get(x.args[0], ()):
                out |= set(y) if isinstance(y, tuple) else {y}
    return out


def verdict(i, t, cls):
    """Truth of a sampler condition for a loader with a sampler of class ``cls``."""
    if t.op == "not":
        x = verdict(i, t.args[0], cls)
        return None if x is None else not x
    if t.op in ("and", "or"):
        xs = [verdict(i, a, cls) for a in t.args]
        stop = t.op == "or"
        if stop in xs:
            return stop
        return None if None in xs else not stop
    if t.op == "isinstance":
        names = classes(i, t)
        return None if not names else cls in names or "Sampler" in names
    if t.op == "cmp" and t.args[0] in ("is", "is not", "==", "!="):
        # exact type test: subclasses of the sampler are missed
        names = {y.args[0].rsplit(".", 1)[-1] for y in i.expand(t) if y.op in ("ext", "class") and isinstance(y.args[0], str)}
        if "type" in names:
            return t.args[0] in ("is not", "!=")
    if t.op in ("phi", "lv"):
        xs = {verdict(i, a, cls) for a in (t.args if t.op == "phi" else i.lvinfo.get(t, ()))}
        return xs.pop() if len(xs) == 1 else None
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].rsplit(".", 1)[-1] in ("bool", "any"):
        xs = [verdict(i, a, cls) for a in t.args[1]]
        return True if True in xs else None if None in xs or not xs else False
    if t.op == "const":
        return bool(t.args[0])
    return None
