"""C24: metadata and index files change under their final name in one step only."""
from __future__ import annotations

from ..files import parent, path, root, tail
from ..offl import Harness
from ..scen import BLOCK_PKG
from ..terms import T, alts, mk, show, sym
from .c12 import Model, last
from .c25 import META, MetaModel

R_TEMP = "written-under-another-name"
R_CLOSED = "complete-before-it-is-moved"
R_KEPT = "previous-version-kept-until-the-move"
R_STEP = "moved-in-one-step"
R_OWN = "temporary-name-of-its-own"
R_NAME = "temporary-names-are-not-read"
R_DONE = "new-version-gets-the-final-name"

GLOBS = {"glob", "rglob", "endswith", "match", "fnmatch"}


def run(c):
    c.rule(R_TEMP, "no call creates, truncates or writes a metadata or index file under the name readers open")
    c.rule(R_CLOSED, "a file gets that name only after it was written without an error and closed")
    c.rule(R_KEPT, "the previous version is removed or moved away only if the data it describes is rewritten before the new version appears")
    c.rule(R_STEP, "the new version is moved within its directory by a rename that replaces the old one")
    c.rule(R_OWN, "a temporary name is unique or made from the final name, where the final name is one of several in its directory")
    c.rule(R_NAME, "readers that look for files by the end of their names do not find temporary files")
    c.rule(R_DONE, "a method that wrote a new version returns only after it got its final name")
    with c.guard("MetadataManager"):
        h = Harness(c.repo, META, init=dict(cache_dir=sym("cache_dir"), layer_names=sym("layers")))
        m = MetaModel(h)
        c.scenarios.append("MetadataManager after any history")
        evs = [x for k in h.r.ranges for x in h.r.events(k)]
        ends = finals(m, evs)
        for n in h.methods:
            check(c, m, ends, "metadata:" + n, lambda n=n: h.fresh(n, "c24:" + n), "c24:" + n)
        names(c, m, ends)
        c.functions |= h.i.inlined
    with c.guard("DiskOffloadManager"):
        m = Model(c.repo)
        h = m.h
        c.scenarios.append("DiskOffloadManager after any history")
        evs = [x for k in h.r.ranges for x in h.r.events(k)]
        ends = finals(m, evs)
        for e, name, t in m.workers + m.tasks:
            check(c, m, ends, "thread:" + name, lambda t=t, name=name, e=e: h.value(t, "c24t:" + name, args=tuple(e.args[1:]) if e.args and "submit" in str(e.callee) else ()), "c24t:" + name)
        for n in h.methods:
            check(c, m, ends, "disk:" + n, lambda n=n: h.fresh(n, "c24:" + n), "c24:" + n)
        names(c, m, ends)
        c.functions |= h.i.inlined


def finals(m, evs):
    """Ends of the names under which metadata is read."""
    out = {}
    for x in evs:
        for f in m.F(m.i, x):
            if x.kind == "call" and str(x.callee) in ("json.load", "json.loads", "yaml.safe_load", "yaml.load") and f.what == "read":
                for p in alts(f.path):
                    if tail(p):
                        out.setdefault(tail(p), x)
        if x.kind == "call" and str(x.callee) == "json.loads":
            for y in m.i.expand(x.args[0]) if x.args else ():
                if y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] in ("read_text", "read_bytes", "read"):
                    o = m.F.lookup(m.F.opened, y.args[0].args[0])
                    p = o[0] if o else path(y.args[0].args[0])
                    if tail(p):
                        out.setdefault(tail(p), x)
    return out


class Save:
    def __init__(self, m, ends):
        self.m, self.ends = m, ends

    def final(self, p):
        return isinstance(p, T) and any((tail(x) or "").endswith(t) for x in alts(p) for t in self.ends if tail(x))

    def cm_exit(self, i, cm):
        o = self.m.F.opened.get(cm)
        return (("open", o[0]),) if o else ()

    def err(self, i, e):
        rel = {k for k in i.S.held if isinstance(k, tuple) and k[0] == "unpublished"}
        out = set()
        for f in self.m.F(i, e) if e is not None else ():
            if f.what == "write" and f.how != "data":
                out.add(("part", f.path))
                rel.add(("unpublished", f.path))
        return out, rel

    def __call__(self, i, e):
        acq, rel = set(), set()
        if e.kind == "call" and last(e) == "close" and e.recv is not None:
            o = self.m.F.lookup(self.m.F.opened, e.recv)
            if o:
                rel.add(("open", o[0]))
        for f in self.m.F(i, e):
            if f.what == "create":
                acq |= {("open", f.path), ("empty", f.path)}
                rel |= {("part", f.path)}
            elif f.what == "write" and f.how == "data":
                rel |= {k for k in e.held if isinstance(k, tuple) and k[0] == "gone"}
                rel |= {("empty", f.path)}
            elif f.what == "write":
                rel |= {("empty", f.path)}
                if last(e) in ("write_text", "write_bytes"):
                    rel |= {("part", f.path)}
                acq |= {("unpublished", f.path)}
            elif f.what == "remove":
                rel |= {("unpublished", f.path)}
                if self.final(f.path):
                    acq |= {("gone", tail1(f.path))}
            elif f.what == "move":
                rel |= {("unpublished", f.path)}
                if self.final(f.dst):
                    rel |= {("gone", tail1(f.dst))}
                if self.final(f.path):
                    acq |= {("gone", tail1(f.path))}
        return acq - rel, rel - acq


def tail1(p):
    return next((tail(x) for x in alts(p) if tail(x)), None)


def check(c, m, ends, what, call, key):
    h, i = m.h, m.i
    rule = Save(m, ends)
    h.tr.rule = rule
    call()
    h.tr.rule = None
    evs, ex = h.r.events(key), h.exit.get(key)
    wrote = False
    for e in evs:
        fs = m.F(i, e)
        for f in fs:
            if f.what in ("create", "write") and rule.final(f.path):
                wrote = True
                c.bad(R_TEMP, f"{e.fn}:{f.what}", f"{what}: the file readers open is written in place ({show(f.path)[-60:]}): interrupted, it is left incomplete", e.loc)
            elif f.what in ("create", "write") and f.how != "data":
                c.ok(R_TEMP, f"{e.fn}:{e.loc}")
            if f.what == "write" and f.how == "copy" and f.dst is not None and rule.final(f.dst):
                c.bad(R_TEMP, f"{e.fn}:copy", f"{what}: the file readers open is written by copying", e.loc)
            if f.what == "move" and rule.final(f.dst):
                wrote = True
                held = {k[0] for k in e.held if isinstance(k, tuple) and len(k) > 1 and k[1] is f.path}
                bad = [w for k, w in (("open", "is still open (and may not be flushed)"), ("empty", "may still be empty"), ("part", "may be incomplete after an error")) if k in held]
                if bad:
                    c.bad(R_CLOSED, f"{e.fn}:move", f"{what}: the new version gets its final name when it " + " and ".join(bad), e.loc)
                else:
                    c.ok(R_CLOSED, f"{e.fn}:{e.loc}")
                if any(isinstance(k, tuple) and k[0] == "gone" and k[1] == tail1(f.dst) for k in e.held):
                    c.bad(R_KEPT, f"{e.fn}:move", f"{what}: the previous version is removed before the new one has its name: interrupted, there is neither", e.loc)
                else:
                    c.ok(R_KEPT, f"{e.fn}:{e.loc}")
                shared = common(f.path, f.dst)
                if shared:
                    c.bad(R_OWN, f"{e.fn}:move", f"{what}: the temporary name {shared} is the same for all files of a directory: two writers mix their versions", e.loc)
                else:
                    c.ok(R_OWN, f"{e.fn}:{e.loc}")
                why = other_place(f.path, f.dst)
                if why:
                    c.bad(R_STEP, f"{e.fn}:move", f"{what}: {why}", e.loc)
                else:
                    c.ok(R_STEP, f"{e.fn}:{e.loc}")
    if ex is not None:
        left = [k[1] for k in ex if isinstance(k, tuple) and k[0] == "unpublished" and not rule.final(k[1])]
        if left:
            c.bad(R_DONE, what, f"may return although the new version was only written to {show(left[0])[-60:]}", "")
        elif wrote:
            c.ok(R_DONE, what)


def other_place(src, dst):
    """Why a move from src to dst may not be one rename, or None."""
    for s in alts(src):
        for d in alts(dst):
            if s.op == "tempname":
                kw = dict(s.args[0].args[2]) if len(s.args[0].args) > 2 and s.args[0].args[2] else {}
                if "dir" not in kw or kw["dir"].op == "const":
                    return "the temporary file lies in the system's temporary directory: the move may copy the file"
                continue
            r = root(s)
            if r is root(d):
                continue
            if r.op == "call" and r.args[0].op == "ext" and str(r.args[0].args[0]).startswith("tempfile."):
                return "the temporary file lies in the system's temporary directory: the move may copy the file"
            if r.op == "const" and root(d).op != "const" and parent(s) is not None:
                return f"the temporary file lies in another directory ({r.args[0]}): the move may copy the file"
    return None


def base(p):
    """The parts of a path's last component, or None."""
    if p.op == "join":
        return [p.args[-1]]
    if p.op == "fstr":
        out, first = [], base(p.args[0])
        if first is None:
            # a directory and a name joined as text: the name starts after the last separator
            cut = [k for k, x in enumerate(p.args) if x.op == "const" and isinstance(x.args[0], str) and "/" in x.args[0]]
            return list(p.args[cut[-1]:]) if cut else None
        return first + list(p.args[1:])
    if p.op in ("with_suffix", "with_stem"):
        b = base(p.args[0])
        return None if b is None else b + [p.args[1]] if p.op == "with_suffix" else [p.args[1]]
    if p.op == "with_name":
        return [p.args[1]]
    return None


def fixed(b):
    return all(x.op == "const" or x.op == "fstr" and fixed(x.args) for x in b)


def common(src, dst):
    """The temporary name if all versions of several files are written to it, or None."""
    for s in alts(src):
        b = base(s)
        if b is None or not fixed(b):
            continue
        for d in alts(dst):
            n = base(d)
            if n is not None and not fixed(n):
                return show(mk("fstr", *b))[:60]
    return None


def names(c, m, ends):
    """Temporary names against the patterns readers look for."""
    i = m.i
    pats = {}
    temps = {}
    for k in m.h.r.ranges:
        for e in m.h.r.events(k):
            if e.kind == "call" and last(e) in GLOBS and e.args:
                for a in alts(e.args[-1] if last(e) == "fnmatch" else e.args[0]):
                    if a.op == "const" and isinstance(a.args[0], str):
                        pats.setdefault(a.args[0].rsplit("*", 1)[-1], e)
            for f in m.F(i, e):
                if f.what == "move":
                    for s, d in zip(alts(f.path), alts(f.dst)):
                        if any((tail(d) or "").endswith(t) for t in ends):
                            temps.setdefault(s, e)
    for s, e in temps.items():
        t = tail(s)
        hit = [p for p in list(pats) + list(ends) if t and p and t.endswith(p)]
        if hit:
            c.bad(R_NAME, f"{e.fn}:{t}", f"a temporary name ends in {t}, which readers looking for {hit[0]} find", e.loc)
        else:
            c.ok(R_NAME, f"{e.fn}:{t}")
