"""C07: no supported call reads a value that was never assigned."""
from __future__ import annotations

import ast
import builtins
import symtable

from ..drive import FULL, OPAQUE_MODS, TEST, TRAIN, attributor, functions
from ..feas import Feas
from ..interp import Dead
from ..scen import BLOCK, BLOCK_PKG, DVEMB, FACT, IF, IFS, LOGRA, RPS, TRAK, blocks, table
from ..terms import NONE, TRUE, UNDEF, alts, const, show, sym

R_LOCAL = "variables-assigned-before-read"
R_ATTR = "attributes-set-before-read"
R_NAME = "names-defined"
R_KEY = "constant-keys-present"


def run(c):
    c.rule(R_LOCAL, "no feasible path of a function reaches a read of a local variable before an assignment to it")
    c.rule(R_NAME, "every global name a function mentions is defined by its module, imported or built in")
    c.rule(R_ATTR, "along every analysed sequence of public calls, an attribute is only read where it was set before "
                   "or where its presence was tested")
    c.rule(R_KEY, "a dictionary filled under caller-chosen keys is not read at a fixed key")
    local(c)
    global_names(c)
    attrs(c)
    c.need(R_LOCAL, 100)
    c.need(R_ATTR, 10)


def local(c):
    fe = Feas(c.repo)
    for f in c.repo.all_functions():
        with c.guard(f.qual):
            r = functions(c.repo, opaque_mod=("dattri.",), track_exc=True, feasible=fe)
            fe.enter(f)
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if a.vararg:
                names.append(a.vararg.arg)
            if a.kwarg:
                names.append(a.kwarg.arg)
            bound = {p: sym(p) for p in names}
            if f.cls is not None and names and not f.is_static and not f.is_classmethod:
                o = r.i.new_obj("inst", f.node, cls=f.cls, extra=f.qual)
                r.i.objs[o.args[0]]["cls"] = f.cls
                r.i.objs[o.args[0]]["symbolic"] = True
                bound[names[0]] = o
            try:
                r.i.enter(f, bound)
            except Dead:
                pass
            c.functions.add(f.qual)
            found = False
            for e in r.i.events:
                if e.kind == "unbound" and e.always:
                    found = True
                    c.bad(R_LOCAL, f"{f.qual}:{e.name}", f"'{e.name}' is read before any assignment", e.loc)
                elif e.kind == "maybe_unbound":
                    res = [fe(r.i, x) for x in e.sets]
                    if True in res:
                        found = True
                        x = list(e.sets)[res.index(True)]
                        c.bad(R_LOCAL, f"{f.qual}:{e.name}", f"'{e.name}' is read although no assignment was reached when "
                              + (" and ".join(sorted(("" if v else "not ") + show(t, 3) for t, v in x))[:300] or "always"), e.loc)
                    elif None in res:
                        found = True
                        c.unknown(R_LOCAL, f"{f.qual}:{e.name}", "whether the assignments cover every value is not visible")
            if not found:
                c.ok(R_LOCAL, f.qual)


IMPLICIT = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__builtins__", "__path__", "__class__"}


def global_names(c):
    for m in c.repo.modules.values():
        with c.guard(m.name):
            if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names)
                   or isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                   and n.func.id in ("exec", "globals", "vars", "locals") for n in ast.walk(m.tree)):
                continue     # names may come from elsewhere
            top = symtable.symtable(m.src, m.rel, "exec")
            have = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
            have |= IMPLICIT | set(dir(builtins))
            todo = list(top.get_children())
            lines = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name):
                    lines.setdefault(n.id, n.lineno)
            while todo:
                t = todo.pop()
                todo += t.get_children()
                have |= {s.get_name() for s in t.get_symbols() if s.is_declared_global() and s.is_assigned()}
            todo = [top]
            missing = set()
            while todo:
                t = todo.pop()
                todo += t.get_children()
                if t.get_type() not in ("module", "function", "class"):
                    continue     # annotations are not evaluated
                missing |= {s.get_name() for s in t.get_symbols()
                            if s.is_referenced() and s.is_global() and s.get_name() not in have}
            if top.get_type() == "module":
                missing |= {s.get_name() for s in top.get_symbols() if s.is_referenced() and s.get_name() not in have}
            for n in sorted(missing):
                c.bad(R_NAME, f"{m.name}:{n}", f"global name '{n}' is not defined", f"{m.rel}:{lines.get(n, '?')}")
            if not missing:
                c.ok(R_NAME, m.name)


def sequences():
    """(name, build) for the sequences of public calls along which attribute reads are followed."""
    def plain(s):
        return lambda repo, **kw: s.build(repo, **kw)
    out = [(s.name, plain(s)) for s in table() + blocks() if not s.name.startswith("DVEmb")]
    for c in ("IFAttributorArnoldi", "IFAttributorDataInf", "IFAttributorEKFAC"):
        for m, p in (("attribute", dict(train_dataloader=TRAIN, test_dataloader=TEST)),
                     ("self_attribute", dict(train_dataloader=TRAIN))):
            out.append((f"{c[12:]}.{m}", chain(IF + c, [(m, p)])))
    step = ("cache_gradients", dict())
    ctx = ("cache_gradients_context", dict())
    end = ("cache", dict(gradients=NONE, learning_rates=NONE))
    att = ("attribute", dict(test_dataloader=TEST))
    out.append(("DVEmb.cache_gradients+cache+attribute", chain(DVEMB, [step, end, att])))
    out.append(("DVEmb.cache_gradients_context+cache+attribute", chain(DVEMB, [ctx, end, att])))
    mods = OPAQUE_MODS + (BLOCK_PKG + "core.compressor", BLOCK_PKG + "core.utils", BLOCK_PKG + "offload.disk_io")
    for off in ("none", "cpu", "disk"):
        for q, calls in (("full", [("cache", dict(full_train_dataloader=FULL)),
                                   ("attribute", dict(train_dataloader=TRAIN, test_dataloader=TEST)),
                                   ("compute_self_attribution", {})]),
                         ("attribute", [("attribute", dict(train_dataloader=TRAIN, test_dataloader=TEST))]),
                         ("self", [("compute_self_attribution", {})])):
            out.append((f"Block:{off}.{q}", chain(BLOCK, calls, init=dict(offload=const(off), layer_names=sym("layers")),
                                                 opaque_mods=mods)))
    for q, n in ((LOGRA, "LoGra"), (FACT, "FactGraSS")):
        out.append((n + ".__init__", chain(q, [], opaque_mods=mods)))
    out.append(("DiskOffloadManager", chain(BLOCK_PKG + "offload.disk.DiskOffloadManager",
                                            [("store_gradients", {}), ("retrieve_gradients", {}), ("store_ifvp", {}),
                                             ("retrieve_ifvp", {}), ("clear_cache", {})],
                                            opaque_mods=(BLOCK_PKG + "offload.disk_io.memory_map",
                                                         BLOCK_PKG + "offload.disk_io.prefetch_dataset"))))
    return out


def chain(qual, calls, **cfg):
    def build(repo, **kw):
        r = attributor(repo, qual, **cfg, **kw)
        for n, (m, p) in enumerate(calls):
            if r.call(m, key=f"{n}-{m}", **p) is None:
                break
        return r
    return build


def attrs(c):
    for name, build in sequences():
        c.scenarios.append(name)
        with c.guard(name):
            fe = Feas(c.repo)
            r = build(c.repo, feasible=fe)
            i = r.i
            c.functions |= i.inlined
            cls_of = lambda o: i.objs[o.args[0]]["cls"].qual.split(".")[-1]
            found = False
            for e in r.events():
                if e.kind == "noattr":
                    found = True
                    c.bad(R_ATTR, f"{cls_of(e.obj)}.{e.attr}:{e.fn.split('.')[-1]}",
                          f"{name}: 'self.{e.attr}' is read, nothing sets it before", e.loc)
                elif e.kind == "unboundattr":
                    res = [fe(i, x) for x in e.sets]
                    if True in res and not e.always or e.always:
                        found = True
                        x = next((x for x, v in zip(e.sets, res) if v), frozenset())
                        c.bad(R_ATTR, f"{cls_of(e.obj)}.{e.attr}:{e.fn.split('.')[-1]}",
                              f"{name}: 'self.{e.attr}' is read where it may not have been set: when "
                              + " and ".join(sorted(("" if v else "not ") + show(t, 3) for t, v in x))[:300], e.loc)
                    elif None in res:
                        c.unknown(R_ATTR, f"{cls_of(e.obj)}.{e.attr}:{e.fn.split('.')[-1]}", name)
                elif e.kind == "subload" and e.index.op == "const":
                    for b in alts(e.base):
                        if b.op != "obj" or i.objs[b.args[0]]["kind"] != "dict":
                            continue
                        bad = foreign(i, e, b)
                        if bad:
                            c.bad(R_KEY, f"{e.fn}:{show(e.index)}", f"{name}: key {show(e.index)} is read from a dictionary "
                                  f"whose keys are {bad}", e.loc)
                        else:
                            c.ok(R_KEY, f"{e.loc.split(':')[0]}:{e.fn}:{show(e.index)}")
            if not found:
                c.ok(R_ATTR, name)


def foreign(i, e, b):
    """Keys chosen by the caller, when no fixed key of the dictionary is known."""
    key = e.index.args[0]
    keys = [v for how, v in i.contents.get(b.args[0], ()) if how == "key"]
    h = i.S.heap.get(b.args[0], {})
    if ("k", key) in h or any(isinstance(k, tuple) for k in h):
        return ""
    keys = [x for k in keys for x in alts(k)]
    if not keys or not all(k.op == "sym" for k in keys):
        return ""
    for t, v in e.pc:
        if t.op == "cmp" and t.args[0] == "in" and t.args[1] is e.index and v:
            return ""
    return ", ".join(sorted({show(k) for k in keys}))
