"""C15: what retraining writes is what ground-truth evaluation reads."""
from __future__ import annotations

from ..drive import functions
from ..files import OPENERS, path
from ..terms import T, alts, is_const, mk, peq, phi, show

R_DIR = "recorded-directory-is-the-one-saved-in"
R_COVER = "every-recorded-subset-has-a-directory"
R_LAST = "last-part-writes-the-metadata"
R_PLAIN = "plain-values-in-metadata"
R_ORDER = "metadata-written-last"
R_LIST = "index-file-lists-the-training-samples"
R_MODEL = "saved-model-is-the-one-trained-on-them"
R_OWN = "each-model-has-its-own-file"
R_NAME = "read-under-the-name-it-was-written"
R_RANGE = "every-written-model-is-read"
R_LOAD = "loaded-as-it-was-saved"
R_TEXT = "numbers-are-read-as-they-were-written"
R_CLI = "parts-of-the-command-line-are-the-parts-retrained"

W = "dattri.model_util.retrain."
G = "dattri.metric.ground_truth."
CLI = "dattri.script.dattri_retrain."
ROOT = "\0"
SAFE_LOADS = ("yaml.safe_load", "yaml.load", "yaml.full_load", "yaml.unsafe_load")
DUMPS = ("yaml.dump", "yaml.safe_dump")
SAME = ("builtins.list", "builtins.tuple", "builtins.sorted", "numpy.asarray", "numpy.array", "numpy.sort", "torch.as_tensor",
        "torch.tensor", "tqdm.tqdm", "tqdm.auto.tqdm", "builtins.iter", "torch.from_numpy")
SAME_M = ("tolist", "astype", "copy", "numpy", "cpu", "long", "int", "flatten", "ravel")


def run(c):
    c.rule(R_DIR, "the directory recorded for a model is the directory its files were written to")
    c.rule(R_COVER, "the directory map covers all the subsets that the metadata counts, also those retrained by earlier parts")
    c.rule(R_LAST, "the metadata counts the subsets up to the last one that has been retrained, and the part that reaches the total writes it")
    c.rule(R_PLAIN, "the metadata holds only values that a safe YAML loader can read back")
    c.rule(R_ORDER, "the metadata is written only after every model and index file it describes")
    c.rule(R_LIST, "the recorded training samples are those of the loader that the model is trained on")
    c.rule(R_MODEL, "the model stored in a directory is the one returned by the training function for that directory's loader")
    c.rule(R_OWN, "no two models or index files share a path")
    c.rule(R_NAME, "files and metadata keys are read under the names they were written under")
    c.rule(R_RANGE, "evaluation goes through all the subsets and runs that were retrained")
    c.rule(R_LOAD, "a whole model is loaded without restricting the load to weights")
    c.rule(R_TEXT, "the numbers in a text file or directory name are recovered from it")
    c.rule(R_CLI, "the command line retrains the part that its arguments name")
    w = {}
    for name in ("retrain_loo", "retrain_lds"):
        with c.guard(name):
            w[name] = writer(c, name)
    for name, wn in (("calculate_loo_ground_truth", "retrain_loo"), ("calculate_lds_ground_truth", "retrain_lds")):
        with c.guard(name):
            reader(c, name, w.get(wn))
    with c.guard("dattri_retrain"):
        cli(c)


def subterms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T) and x not in out:
            out.add(x)
            todo += x.args
    return out


# ---------------------------------------------------------------- paths

def flat(t, root=None):
    """A path as a list of literal strings and terms."""
    out = []

    def go(p):
        p = path(p)
        if p is root:
            add(ROOT)
        elif p.op == "join":
            go(p.args[0])
            add("/")
            go(p.args[1])
        elif p.op == "fstr":
            for x in p.args:
                go(x)
        elif p.op == "const" and isinstance(p.args[0], (str, int)):
            add(str(p.args[0]))
        elif p.op == "attr" and p.args[1] == "parent":
            inner = flat(p.args[0], root)
            while inner and not (isinstance(inner[-1], str) and "/" in inner[-1]):
                inner.pop()
            if inner:
                inner[-1] = inner[-1].rsplit("/", 1)[0]
                for x in inner:
                    add(x)
            else:
                add(p)
        elif p.op == "sym" and root is not None and path(root) is p:
            add(ROOT)
        else:
            add(p)

    def add(x):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    go(t)
    return out


def text(ps):
    return "".join(("<dir>" if x == ROOT else x.replace(ROOT, "<dir>")) if isinstance(x, str) else "{" + show(x, 2)[:40] + "}" for x in ps)


def match(pattern, target, whole=True):
    """Bindings of the terms of a pattern to those of a path that it is the beginning of, else None."""
    b, i = [], 0
    for n, x in enumerate(pattern):
        if i >= len(target):
            return None
        y = target[i]
        if isinstance(x, str) != isinstance(y, str):
            return None
        if isinstance(x, str):
            if x != y:
                if n + 1 == len(pattern) and not whole and y.startswith(x) and y[len(x):].startswith("/"):
                    return b
                return None
        else:
            b.append((x, y))
        i += 1
    if i < len(target):
        if whole or not (isinstance(target[i], str) and target[i].startswith("/")):
            return None
    return b


def opened(t):
    """The path behind an open file."""
    if t.op == "phi":
        ps = {opened(x) for x in t.args}
        return ps.pop() if len(ps) == 1 else None
    if t.op == "enter":
        t = t.args[0]
    if t.op == "call":
        f = t.args[0]
        if f.op == "ext" and f.args[0] in OPENERS and t.args[1]:
            return t.args[1][0]
        if f.op == "attr" and f.args[1] == "open":
            return f.args[0]
    return None


def is_path(t):
    if t.op == "phi":
        return any(is_path(x) for x in t.args)
    if t.op == "call":
        f = t.args[0]
        if f.op == "ext":
            return str(f.args[0]) in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
        if f.op == "attr" and f.args[1] in ("resolve", "absolute", "joinpath", "with_suffix", "with_name", "expanduser"):
            return is_path(f.args[0])
    if t.op == "bin" and t.args[0] == "/":
        return is_path(t.args[1]) or is_path(t.args[2])
    if t.op == "attr" and t.args[1] == "parent":
        return is_path(t.args[0])
    return False


def array(t):
    """A value that only numpy or torch could have made."""
    if t.op == "phi":
        return any(array(x) for x in t.args)
    if t.op == "call" and t.args[0].op == "ext":
        n = str(t.args[0].args[0])
        return n.startswith(("numpy.", "torch.")) and "generator" not in n.lower()
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("choice", "permutation", "randperm", "integers"):
        return array(t.args[0].args[0])
    return False


def varies(i, t, lid):
    """A value that differs between the passes of a loop."""
    it = i.loopinfo[lid]["iter"] if lid in i.loopinfo else None
    its = {it} if it is not None else set()
    if it is not None:
        its |= set(alts(plain(i, it)))
    for x in subterms(t):
        if x.op in ("idx", "ind", "elem", "pick", "prev") and any(y == lid for y in x.args):
            return True
        if x.op == "elem" and x.args[0] in its:
            return True
        if x.op == "idx" and any(y.op == "obj" and mk("idx", x.args[0]) is v for y in its for _, v in i.contents.get(y.args[0], ())):
            return True
    return False


def plain(i, t, way=None):
    """The same numbers without copies and reorderings."""
    while True:
        if way is not None:
            way.append(t)
        if t.op == "phi":
            xs = {plain(i, x, way) for x in t.args}
            return phi(list(xs))
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in SAME and t.args[1]:
            t = t.args[1][0]
            continue
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in SAME_M:
            t = t.args[0].args[0]
            continue
        if t.op == "obj":
            o = i.objs[t.args[0]]
            f = o.get("from")
            if isinstance(f, T):
                t = f
                continue
            vals = [v for how, v in i.contents.get(t.args[0], ()) if how in ("comp", "elem")]
            if o["kind"] in ("list", "tuple", "gen") and len(vals) == 1 and not o.get("conds") and o.get("loops"):
                it = i.loopinfo.get(o["loops"][-1], {}).get("iter")
                v = vals[0]
                while v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] in ("builtins.int", "builtins.str") and v.args[1]:
                    v = v.args[1][0]
                while v.op == "fstr" and len(v.args) == 1 or v.op == "fmt":
                    v = v.args[0]
                if it is not None and made_of(i, v, o["loops"][-1], it):
                    t = it
                    continue
        return t


def made_of(i, v, lid, it):
    """Each element, or the sampler's index at the position that the element is."""
    def each(x):
        return all(y.op in ("elem", "idx", "pick") or y.op == "bin" for y in alts(x))
    if v.op == "phi" and not each(v):
        return all(made_of(i, x, lid, it) for x in v.args)
    if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] in ("builtins.int", "builtins.str") and v.args[1]:
        return made_of(i, v.args[1][0], lid, it)
    if v.op == "sub" and v.args[0].op == "attr" and v.args[0].args[1] == "indices":
        return each(v.args[1])
    return each(v)


# ---------------------------------------------------------------- writers

class Save:
    def __init__(self, e, ps, value):
        self.e, self.ps, self.value = e, ps, value


class Writer:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.models, self.texts, self.dumps = [], [], []
        self.meta, self.metafile, self.metaobj = None, None, None
        self.maps = []       # (metadata key, key term, pieces of the directory, event or None)


def entries(r, u):
    """(key, value) pairs put into a dictionary; keys of comprehensions as their term."""
    out, key = [], None
    for how, t in r.i.contents.get(u, ()):
        if how == "key":
            key = t
        elif how == "val" and key is not None:
            out.append((key, t))
            key = None
    return out


def writer(c, name):
    if c.repo.func(W + name) is None:
        c.unknown(R_NAME, name, "function not found")
        return None
    r = functions(c.repo)
    r.fcall(W + name, "k")
    c.functions |= r.i.inlined
    from ..terms import sym
    root = sym("path")
    w = Writer(r, name)
    for e in r.events("k"):
        if e.kind != "call":
            continue
        cal = str(e.callee)
        kws = dict(e.kwargs or ())
        if cal == "torch.save":
            v = e.args[0] if e.args else kws.get("obj")
            p = e.args[1] if len(e.args) > 1 else kws.get("f")
            if v is not None and p is not None:
                w.models.append(Save(e, flat(opened(p) or p, root), v))
        elif cal in DUMPS:
            v = e.args[0] if e.args else kws.get("data")
            h = e.args[1] if len(e.args) > 1 else kws.get("stream")
            p = opened(h) if h is not None else None
            if v is not None and h is not None:
                w.dumps.append(Save(e, flat(p, root) if p is not None else [h], v))
            elif v is not None:
                w.dumps.append(Save(e, None, v))
        elif cal in (".write", ".writelines") and e.recv is not None and e.args and opened(e.recv) is not None:
            w.texts.append(Save(e, flat(opened(e.recv), root), e.args[0]))
        elif cal == ".write_text" and e.recv is not None and e.args:
            w.texts.append(Save(e, flat(e.recv, root), e.args[0]))
        elif cal == "numpy.savetxt" and len(e.args) > 1:
            w.texts.append(Save(e, flat(e.args[0], root), e.args[1]))
    for t in list(w.texts):
        d = [x for x in w.dumps if x.ps is None and any(y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] in DUMPS for y in subterms(t.value))]
        if d:
            d[0].ps = t.ps
            d[0].e = t.e
            w.texts.remove(t)
    if not w.models or not w.dumps:
        c.unknown(R_NAME, name, "the calls that write models or metadata were not recognised")
        return None
    if any(e.kind == "call" and str(e.callee) in SAFE_LOADS for e in r.events("k")):
        c.unknown(R_COVER, name, "the metadata is put together from an earlier file")
        return None
    d = w.dumps[0]
    w.metafile = d.ps
    if d.value.op == "obj" and r.i.objs[d.value.args[0]]["kind"] == "dict":
        w.metaobj = d.value.args[0]
        w.meta = {}
        for k, v in entries(r, w.metaobj):
            if k.op == "const":
                w.meta.setdefault(k.args[0], v)
    if w.meta is None:
        c.unknown(R_NAME, name, "the metadata was not recognised")
        return None
    own(c, w)
    last(c, w)
    values(c, w)
    directories(c, w, root)
    samples(c, w)
    return w


def own(c, w):
    for s in w.models + w.texts:
        n = "model" if s in w.models else "index"
        for lid in s.e.loops:
            if lid not in w.r.i.loopinfo or w.r.i.loopinfo[lid].get("comp"):
                continue
            if s in w.texts and s.e.recv is not None and not inside(w, s, lid):
                continue
            if any(isinstance(x, T) and varies(w.r.i, x, lid) for x in s.ps):
                c.ok(R_OWN, f"{w.name}:{n}:{s.e.loc}:{lid}")
            else:
                c.bad(R_OWN, f"{w.name}:{n}", f"{text(s.ps)} is the same path in every pass of the loop over {show(w.r.i.loopinfo[lid]['iter'])[:60]}", s.e.loc)
        for a, b in zip(s.ps, s.ps[1:]):
            if isinstance(a, T) and isinstance(b, T):
                c.bad(R_OWN, f"{w.name}:{n}", f"two numbers follow each other in {text(s.ps)}", s.e.loc)
    for a in w.models + w.texts:
        for b in w.models + w.texts:
            if a.e.seq < b.e.seq and (a in w.models) != (b in w.models) and a.ps == b.ps:
                c.bad(R_OWN, f"{w.name}:shared", f"{text(a.ps)} is written twice with different contents", b.e.loc)


def inside(w, s, lid):
    """The file is opened within the loop (not only written to)."""
    for e in w.r.events("k"):
        if e.kind == "call" and e.d.get("result") is not None and (str(e.callee) in OPENERS or str(e.callee) == ".open"):
            if any(e.result is (x.args[0] if x.op == "enter" else x) for x in alts(s.e.recv)):
                return lid in e.loops
    return True


def last(c, w):
    for d in w.dumps:
        later = [s for s in w.models + w.texts if s.e.seq > d.e.seq and not d.e.loops]
        within = [lid for lid in d.e.loops]
        if later:
            c.bad(R_ORDER, w.name, f"{text(later[0].ps)} is written after the metadata that describes it", d.e.loc)
        elif within and w.name == "retrain_lds":
            c.bad(R_ORDER, w.name, "the metadata counts all the subsets and is written while they are retrained", d.e.loc)
        elif within and any(s.e.seq > d.e.seq and set(within) <= set(s.e.loops) for s in w.models + w.texts):
            c.bad(R_ORDER, w.name, "the metadata of a model is written before the model", d.e.loc)
        else:
            c.ok(R_ORDER, f"{w.name}:{d.e.loc}")


def values(c, w):
    seen, todo = set(), [(k, v) for k, v in entries(w.r, w.metaobj)]
    top = True
    n = 0
    while todo:
        k, v = todo.pop()
        for x in alts(v):
            if x.op == "obj":
                if x in seen:
                    continue
                seen.add(x)
                todo += entries(w.r, x.args[0])
                todo += [(k, y) for how, y in w.r.i.contents.get(x.args[0], ()) if how in ("elem", "comp")]
                continue
            n += 1
            for y, what in ((x, "value"), (k, "key")):
                if is_path(y):
                    c.bad(R_PLAIN, f"{w.name}:{what}", f"{show(y)[:60]} is a path object: the YAML file cannot be read back safely", w.dumps[0].e.loc)
                elif array(y):
                    c.bad(R_PLAIN, f"{w.name}:{what}", f"{show(y)[:60]} is an array: the YAML file cannot be read back safely", w.dumps[0].e.loc)
    if n:
        c.ok(R_PLAIN, f"{w.name}:{n} values")


def loop_range(i, lid):
    """(start, end) of a loop over range."""
    it = i.loopinfo[lid]["iter"] if lid in i.loopinfo else None
    if it is None:
        return None
    it = plain(i, it)
    if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] == "builtins.range":
        from ..terms import const
        a = it.args[1]
        if len(a) == 1:
            return const(0), a[0]
        if len(a) == 2:
            return a[0], a[1]
    return None


def same_value(a, b):
    if peq(a, b):
        return True
    xs, ys = alts(a), alts(b)
    return len(xs) == len(ys) and all(any(peq(x, y) for y in ys) for x in xs)


def directories(c, w, root):
    i = w.r.i
    for key in ("subset_dir_map", "map_index_dir"):
        v = w.meta.get(key)
        if v is None or v.op != "obj":
            continue
        for k, x in entries(w.r, v.args[0]):
            w.maps.append((key, k, flat(x, root)))
    for key, k, ps in w.maps:
        if not any(x is k for x in ps if isinstance(x, T)):
            nums = [x for x in ps if isinstance(x, T)]
            c.bad(R_DIR, f"{w.name}:{key}", f"{text(ps)} is recorded as the directory of {show(k)[:40]}", w.dumps[0].e.loc)
            continue
        ok = False
        for s in w.models:
            b = match(ps, s.ps, whole=False)
            if b is None:
                c.bad(R_DIR, f"{w.name}:{key}", f"the model is saved as {text(s.ps)}, its recorded directory is {text(ps)}", s.e.loc)
            else:
                ok = True
                # recorded in the loop that retrains: the same number
                if any(varies(i, k, lid) for lid in s.e.loops) and not all(x is y for x, y in b):
                    c.bad(R_DIR, f"{w.name}:{key}", f"the model is saved under number {show(b[0][1])[:40]}, its directory is recorded under {show(k)[:40]}", s.e.loc)
                else:
                    c.ok(R_DIR, f"{w.name}:{key}:{s.e.loc}")
        for s in w.texts:
            if match(ps, s.ps, whole=False) is None:
                c.bad(R_DIR, f"{w.name}:{key}", f"the training samples are recorded in {text(s.ps)}, the recorded directory is {text(ps)}", s.e.loc)
            else:
                c.ok(R_DIR, f"{w.name}:{key}:{s.e.loc}")
    for s in w.models + w.texts:
        for lid in s.e.loops:
            rg = loop_range(i, lid)
            for x in s.ps:
                if rg and isinstance(x, T) and has_idx(x, lid) and w.maps and w.name == "retrain_lds":
                    want = mk("bin", "+", rg[0], mk("idx", lid)) if not is_const(rg[0], 0) else mk("idx", lid)
                    if same_value(x, want):
                        c.ok(R_DIR, f"{w.name}:number:{s.e.loc}")
                    elif known_or_idx(x):
                        c.bad(R_DIR, f"{w.name}:number", f"{text(s.ps)} is numbered {show(x)[:40]}, the subset is number {show(want)[:40]}", s.e.loc)
    # the count of subsets
    n = w.meta.get("num_subsets")
    if n is None:
        return
    ends = set()
    for s in w.models:
        for lid in s.e.loops:
            rg = loop_range(i, lid)
            if rg and any(isinstance(x, T) and has_idx(x, lid) for x in s.ps) and lid == s.e.loops[0]:
                ends.add(rg)
    from ..terms import const
    for a, b in ends:
        if same_value(b, n):
            c.ok(R_LAST, f"{w.name}:num_subsets")
        elif is_const(a, 0) or not known(n):
            c.unknown(R_LAST, w.name, f"number of subsets {show(n)[:60]}") if not known(n) else c.bad(
                R_LAST, f"{w.name}:num_subsets", f"subsets are retrained up to {show(b)[:40]}, {show(n)[:40]} are recorded", w.dumps[0].e.loc)
        else:
            c.bad(R_LAST, f"{w.name}:num_subsets", f"subsets are retrained up to {show(b)[:40]}, {show(n)[:40]} are recorded", w.dumps[0].e.loc)
        for cond, val in totals(w):
            if val is None:
                continue
            if same_value(val, b):
                c.ok(R_LAST, f"{w.name}:total")
            elif known(val):
                c.bad(R_LAST, f"{w.name}:total", f"the part that retrains up to {show(b)[:40]} is taken for the last one if {show(val)[:40]} is the total", w.dumps[0].e.loc)
            else:
                c.unknown(R_LAST, w.name, f"condition {show(cond)[:60]}")
        for key, k, ps in w.maps:
            rg = None
            for x in subterms(k):
                if x.op == "idx":
                    rg = loop_range(i, x.args[0])
                    lid = x.args[0]
            if rg is None:
                c.unknown(R_COVER, w.name, f"keys {show(k)[:60]}")
                continue
            first, end = rg
            if k.op != "idx" and not same_value(k, mk("bin", "+", first, mk("idx", lid))):
                c.bad(R_COVER, f"{w.name}:{key}", f"the directory map has the keys {show(k)[:40]}", w.dumps[0].e.loc)
            elif not (is_const(first, 0) or all(is_const(x, 0) for x in alts(first))):
                c.bad(R_COVER, f"{w.name}:{key}", f"the directory map begins at subset {show(first)[:40]}: those retrained by earlier parts are missing", w.dumps[0].e.loc)
            elif same_value(end, n):
                c.ok(R_COVER, f"{w.name}:{key}")
            elif known(end):
                c.bad(R_COVER, f"{w.name}:{key}", f"{show(n)[:40]} subsets are recorded, the directory map ends at {show(end)[:40]}", w.dumps[0].e.loc)
            else:
                c.unknown(R_COVER, w.name, f"end of the directory map {show(end)[:60]}")


def known_or_idx(t):
    return all(x.op in ("sym", "const", "bin", "phi", "un", "idx") for x in subterms(t))


def known(t):
    """Arithmetic over parameters and constants only."""
    return all(x.op in ("sym", "const", "bin", "phi", "un") for x in subterms(t))


def has_idx(t, lid):
    return any(x.op == "idx" and x.args[0] == lid for x in subterms(t))


def totals(w):
    """What the total number of subsets is compared with before the metadata is written."""
    out = []
    for cond, pol, *_ in w.dumps[0].e.pc:
        if not isinstance(cond, T):
            continue
        for x in subterms(cond):
            if x.op == "cmp" and x.args[0] in ("==", "!=", ">=", "<=", ">", "<"):
                a, b = x.args[1], x.args[2]
                for p, q in ((a, b), (b, a)):
                    if p.op == "sym" and "total" in str(p.args[0]) and not is_const(q) and not (q.op == "sym" and False):
                        out.append((x, q if x.args[0] == "==" else None))
    return out


def samples(c, w):
    """Positions written next to a model against those its loader was made from."""
    i = w.r.i
    trained = []
    for e in w.r.events("k"):
        if e.kind == "call" and e.d.get("func") is not None and e.func.op == "sym" and str(e.func.args[0]) == "train_func":
            subs = {x for a in list(e.args or ()) + [v for _, v in e.kwargs or ()] for x in subterms(a)
                    if x.op == "call" and x.args[0].op == "ext" and str(x.args[0].args[0]).rsplit(".", 1)[-1] in ("Subset", "SubsetRandomSampler")}
            trained.append((e, subs))
    if not trained:
        c.unknown(R_MODEL, w.name, "no call of the training function found")
        return
    for s in w.models:
        mine = [(e, subs) for e, subs in trained if any(x is e.result for x in subterms(s.value))]
        if not mine:
            deep = reach(i, s.value)
            mine = [(e, subs) for e, subs in trained if e.result in deep]
            if mine:
                c.unknown(R_MODEL, w.name, f"{show(s.value)[:60]} is saved")
            else:
                c.bad(R_MODEL, w.name, f"{show(s.value)[:60]} is saved, not the model that the training function returned", s.e.loc)
            continue
        for e, subs in mine:
            if e.loops != s.e.loops:
                c.bad(R_MODEL, w.name, "the model is saved in another loop than it is trained in", s.e.loc)
            elif not subs:
                c.bad(R_MODEL, w.name, "the model is trained on a loader without the recorded subset", e.loc)
            else:
                c.ok(R_MODEL, f"{w.name}:{s.e.loc}")
            for sb in subs:
                check_positions(c, w, s, e, sb)


def reach(i, t):
    seen, todo = set(), [t]
    while todo:
        for y in subterms(todo.pop()):
            if y in seen:
                continue
            seen.add(y)
            if y.op == "obj":
                todo += [v for _, v in i.contents.get(y.args[0], ())]
    return seen


def check_positions(c, w, s, e, sb):
    i = w.r.i
    n = str(sb.args[0].args[0]).rsplit(".", 1)[-1]
    a = sb.args[1]
    kws = dict(sb.args[2]) if len(sb.args) > 2 and isinstance(sb.args[2], tuple) else {}
    pos = a[1] if n == "Subset" and len(a) > 1 else a[0] if n != "Subset" and a else kws.get("indices")
    if pos is None:
        c.unknown(R_LIST, w.name, "subset without indices")
        return
    way = []
    P = set(alts(plain(i, pos, way)))
    if w.name == "retrain_loo":
        for p in P:
            left_out(c, w, s, p, way)
        return
    for t in w.texts:
        if set(t.e.loops) - set(e.loops) and not t.value.op == "fstr":
            continue
        x = listed(w, t)
        if x is None:
            c.unknown(R_LIST, w.name, f"{show(t.value)[:60]} is written to {text(t.ps)}")
            continue
        L = set(alts(plain(i, x)))
        if P <= L:
            draws = {d.loc for d in w.r.events("k") if d.kind == "call" and d.d.get("result") in L and d.result.op == "call"
                     and d.result.args[0].op == "attr"}
            if len(draws) > 1:
                c.bad(R_LIST, w.name, "the recorded samples and those trained on are drawn separately", sorted(draws)[-1])
            else:
                c.ok(R_LIST, f"{w.name}:{t.e.loc}")
        elif not P & L or all(drawn(p) for p in P - L):
            c.bad(R_LIST, w.name, f"{show(min(L, key=str))[:60]} are recorded, the model is trained on {show(min(P - L, key=str))[:60]}", t.e.loc)
        else:
            c.unknown(R_LIST, w.name, f"trained on {show(min(P - L, key=str))[:60]}")
    if not w.texts:
        c.bad(R_LIST, w.name, "the samples that a model is trained on are not recorded", s.e.loc)


def drawn(t):
    return any(x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("choice", "permutation", "shuffle", "integers") for x in subterms(t))


def listed(w, t):
    """The numbers that a text file is made of."""
    i = w.r.i
    v = t.value
    if v.op == "bin" and v.args[0] == "+":
        v = v.args[1] if v.args[2].op == "const" else v
    if v.op == "call" and v.args[0].op == "attr" and v.args[0].args[1] == "join" and v.args[1]:
        v = v.args[1][0]
        if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] == "builtins.map" and len(v.args[1]) > 1:
            return v.args[1][1]
        if v.op == "obj":
            p = plain(i, v)
            return p if p is not v else None
        if v.op == "gen":
            p = plain(i, v)
            return p if p is not v else None
        return None
    if str(t.e.callee) == "numpy.savetxt":
        return v
    if v.op in ("fstr", "bin") and t.e.loops:
        lid = t.e.loops[-1]
        if varies(i, v, lid) and not inside(w, t, lid):
            return i.loopinfo[lid]["iter"]
    return None


def left_out(c, w, s, p, way):
    """The samples of a leave-one-out model are all but the one its directory is named after."""
    i = w.r.i
    nums = [x for x in s.ps if isinstance(x, T)]
    taken = [e for e in w.r.events("k") if e.kind == "call" and e.recv in way and str(e.callee) in (".remove", ".discard", ".pop", ".clear")
             or e.kind == "delitem" and e.d.get("base") in way]
    if taken:
        e = taken[0]
        if len(taken) == 1 and str(e.d.get("callee")) in (".remove", ".discard") and e.args and any(e.args[0] is y for y in nums):
            c.ok(R_LIST, f"{w.name}:{s.e.loc}")
        else:
            c.unknown(R_LIST, w.name, "samples removed from a list")
        return
    if p.op == "obj":
        o = i.objs[p.args[0]]
        conds = [x for x in o.get("conds", ()) if isinstance(x, T)]
        vals = [v for how, v in i.contents.get(p.args[0], ()) if how in ("comp", "elem")]
        if len(set(conds)) == 1 and conds[0].op == "cmp" and len(vals) == 1:
            op, a, b = conds[0].args[:3]
            if op == "!=" and any(x is y for x in (a, b) for y in nums) and any(x is vals[0] for x in (a, b)):
                c.ok(R_LIST, f"{w.name}:{s.e.loc}")
            elif op in ("!=", "==", "<", ">", "<=", ">="):
                c.bad(R_LIST, w.name, f"a model recorded without sample {show(nums[-1])[:40] if nums else '?'} is trained on those with {show(conds[0])[:60]}", s.e.loc)
            else:
                c.unknown(R_LIST, w.name, f"samples chosen by {show(conds[0])[:60]}")
            return
        if not conds and vals:
            c.bad(R_LIST, w.name, "a leave-one-out model is trained on all the samples", s.e.loc)
            return
    if p.op == "call" and p.args[0].op == "ext" and p.args[0].args[0] == "builtins.range":
        c.bad(R_LIST, w.name, "a leave-one-out model is trained on all the samples", s.e.loc)
        return
    if p.op in ("sym", "const") or p.op == "attr":
        c.bad(R_LIST, w.name, f"a leave-one-out model is trained on {show(p)[:60]}", s.e.loc)
        return
    c.unknown(R_LIST, w.name, f"leave-one-out samples {show(p)[:60]}")


# ---------------------------------------------------------------- readers

def is_meta(t):
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in SAFE_LOADS


def reader(c, name, w):
    if c.repo.func(G + name) is None:
        c.unknown(R_NAME, name, "function not found")
        return
    from ..terms import sym
    r = functions(c.repo)
    r.fcall(G + name, "k")
    c.functions |= r.i.inlined
    if w is None:
        c.unknown(R_NAME, name, "what the retraining function writes is not known")
        return
    root = sym("retrain_dir")
    terms, keys, metas = set(), set(), set()
    used = []
    for e in r.events("k"):
        for v in e.d.values():
            for x in ([v] if isinstance(v, T) else [y for y in v if isinstance(y, T)] if isinstance(v, (tuple, list)) else []):
                terms |= subterms(x)
    for t in terms:
        if is_meta(t):
            metas.add(t)
        if t.op == "sub" and is_meta(t.args[0]) and t.args[1].op == "const":
            keys.add(t.args[1].args[0])
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "get" and is_meta(t.args[0].args[0]) and t.args[1] and t.args[1][0].op == "const":
            keys.add(t.args[1][0].args[0])
    for e in r.events("k"):
        if e.kind == "subload" and is_meta(e.base) and isinstance(e.d.get("index"), T) and e.index.op == "const":
            keys.add(e.index.args[0])
    for m in metas:
        p = opened(m.args[1][0]) if m.args[1] else None
        if p is None:
            continue
        ps = flat(p, root)
        if ps == w.metafile:
            c.ok(R_NAME, f"{name}:metadata")
        elif all(isinstance(x, str) for x in ps) and w.metafile and all(isinstance(x, str) for x in w.metafile):
            c.bad(R_NAME, f"{name}:metadata", f"the metadata is written to {text(w.metafile)} and read from {text(ps)}", "")
    for k in sorted(keys, key=str):
        if k in w.meta:
            c.ok(R_NAME, f"{name}:key:{k}")
        else:
            c.bad(R_NAME, f"{name}:key", f"metadata key {k!r} is read but not written", r.events("k")[0].loc)
    # files
    n = 0
    for e in r.events("k"):
        if e.kind != "call":
            continue
        cal = str(e.callee)
        p = None
        if cal in OPENERS and e.args:
            p, what = e.args[0], "index"
        elif cal in (".open", ".read_text") and e.recv is not None:
            p, what = e.recv, "index"
        elif cal in ("numpy.loadtxt", "numpy.genfromtxt") and e.args:
            p, what = e.args[0], "index"
        elif cal == "torch.load" and e.args:
            p, what = opened(e.args[0]) or e.args[0], "model"
        elif e.d.get("func") is not None and e.func.op == "sym" and str(e.func.args[0]) == "target_func" and e.args:
            p, what = e.args[0], "model"
            if any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "torch.load" for x in subterms(p)):
                continue
        if p is None:
            continue
        ps = flat(p, root)
        if ps == w.metafile:
            continue
        n += 1
        ws = w.models if what == "model" else w.texts
        file(c, r, w, name, what, e, ps, ws)
        if cal == "torch.load":
            load(c, w, name, e, ws)
        if what == "index":
            parse(c, r, w, name, e, ws)
    if not n:
        c.unknown(R_NAME, name, "no file read")


def file(c, r, w, name, what, e, ps, ws):
    """A path that is read against the paths that are written."""
    ps = list(ps)
    number = None
    if ps and isinstance(ps[0], T) and ps[0].op == "sub" and ps[0].args[0].op == "sub" and is_meta(ps[0].args[0].args[0]) and is_const(ps[0].args[0].args[1]):
        key, k = ps[0].args[0].args[1].args[0], ps[0].args[1]
        maps = [m for m in w.maps if m[0] == key]
        if not maps:
            c.unknown(R_NAME, f"{name}:{what}", f"directories recorded under {key}")
            return
        ps = join([k if x is maps[0][1] else x for x in maps[0][2]] + ps[1:])
    elif ps and ps[0] != ROOT and not (isinstance(ps[0], str) and ps[0].startswith(ROOT)):
        # an element of the directory
        if not (isinstance(ps[0], T) and listing(ps[0])):
            c.unknown(R_NAME, f"{name}:{what}", f"{text(ps)} is read")
            return
        ps = join([ROOT + "/", mk("attr", ps[0], "name")] + ps[1:])
    dirs = [(n, x) for n, x in enumerate(ps) if isinstance(x, T) and x.op == "attr" and x.args[1] == "name" and listing(x.args[0])]
    if dirs:
        n, d = dirs[0]
        for s in ws:
            sp = shape(s.ps)
            comp = sp.split("/")
            rs = "".join(x if isinstance(x, str) else ("*" if x is d else "#") for x in ps).split("/")
            if len(comp) == len(rs) and all(a == b or b == "*" for a, b in zip(comp, rs)):
                c.ok(R_NAME, f"{name}:{what}:{e.loc}")
                dirname(c, r, name, d, comp[rs.index("*")] if "*" in rs else None, e)
            else:
                c.bad(R_NAME, f"{name}:{what}", f"{text(s.ps)} is written and {text(ps)} is read", e.loc)
        return
    for s in ws:
        b = match(s.ps, ps)
        if b is None:
            c.bad(R_NAME, f"{name}:{what}", f"{text(s.ps)} is written and {text(ps)} is read", e.loc)
            continue
        if len({y for _, y in b}) < len({x for x, _ in b}):
            c.bad(R_NAME, f"{name}:{what}", f"{text(s.ps)} is written, and the same number is used twice in {text(ps)}", e.loc)
            continue
        c.ok(R_NAME, f"{name}:{what}:{e.loc}")
        for x, y in b:
            covered(c, r, w, name, what, e, s, x, y)


def covered(c, r, w, name, what, e, s, x, y):
    """The numbers read are the numbers written."""
    wl = [z.args[0] for z in subterms(x) if z.op == "idx"]
    rl = [z.args[0] for z in subterms(y) if z.op == "idx"]
    if len(set(rl)) > 1 and y.op == "bin" and len(set(wl)) == 1:
        c.bad(R_RANGE, f"{name}:{what}", f"the number read, {show(y)[:60]}, mixes two loops; the number written counts one", e.loc)
        return
    if len(rl) == 1 and any(z.op == "bin" and z.args[0] in ("%", "//") or z.op == "call" and str(z.args[0].args[0]).endswith("divmod") for z in subterms(y)):
        c.unknown(R_RANGE, f"{name}:{what}", f"number {show(y)[:60]}")
        return
    if len(wl) != 1 or len(rl) != 1:
        if y.op in ("elem", "const") or not rl:
            c.unknown(R_RANGE, f"{name}:{what}", f"number {show(y)[:60]}") if y.op != "const" else c.bad(
                R_RANGE, f"{name}:{what}", f"only number {show(y)[:20]} is read", e.loc)
        return
    a, b = loop_range(w.r.i, wl[0]), loop_range(r.i, rl[0])
    if a is None or b is None:
        c.unknown(R_RANGE, f"{name}:{what}", f"number {show(y)[:60]}")
        return
    if y.op != "idx" or not is_const(b[0], 0):
        off = y if y.op == "idx" else None
        if off is None and same_value(y, mk("bin", "+", b[0], mk("idx", rl[0]))) and all(is_const(z, 0) for z in alts(b[0])):
            pass
        else:
            c.bad(R_RANGE, f"{name}:{what}", f"the numbers read are {show(y)[:60]} from {show(b[0])[:20]}", e.loc)
            return
    end = b[1]
    if end.op == "sub" and is_meta(end.args[0]) and end.args[1].op == "const":
        rec = w.meta.get(end.args[1].args[0])
        if rec is None:
            return
        if same_value(rec, a[1]):
            c.ok(R_RANGE, f"{name}:{what}:{e.loc}")
        elif known(rec) and known(a[1]):
            c.bad(R_RANGE, f"{name}:{what}", f"{show(a[1])[:40]} are written, {show(rec)[:40]} are read", e.loc)
        else:
            c.unknown(R_RANGE, f"{name}:{what}", f"{show(rec)[:40]} are read")
    elif end.op == "dim" and end.args[0].op == "sub" and is_meta(end.args[0].args[0]):
        c.ok(R_RANGE, f"{name}:{what}:{e.loc}")
    elif any(x.op == "bin" and any(isinstance(q, T) and q.op == "sub" and is_meta(q.args[0]) for q in x.args[1:])
             for x in subterms(end)) or end.op == "const":
        c.bad(R_RANGE, f"{name}:{what}", f"{show(a[1])[:40]} are written, {show(end)[:60]} are read", e.loc)
    else:
        c.unknown(R_RANGE, f"{name}:{what}", f"{show(end)[:60]} are read")


def join(ps):
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def shape(ps):
    return "".join(x if isinstance(x, str) else "#" for x in ps)


def listing(t):
    return any(x.op == "call" and (x.args[0].op == "attr" and x.args[0].args[1] in ("iterdir", "glob", "rglob") or
                                   x.args[0].op == "ext" and x.args[0].args[0] in ("os.listdir", "os.scandir", "glob.glob")) for x in subterms(t))


def dirname(c, r, name, d, comp, e):
    """Directory names are recognised and their number is recovered."""
    if comp is None or comp.count("#") != 1:
        c.unknown(R_TEXT, name, "directory names")
        return
    for ev in r.events("k"):
        if ev.kind == "call" and str(ev.callee) in (".startswith", ".endswith", ".match") and ev.recv is not None and listing(ev.recv) \
                and ev.args and ev.args[0].op == "const" and isinstance(ev.args[0].args[0], str):
            lit = ev.args[0].args[0]
            if str(ev.callee) == ".startswith":
                good = comp.replace("#", "1").startswith(lit) and len(lit) <= comp.index("#")
            elif str(ev.callee) == ".endswith":
                good = comp.replace("#", "1").endswith(lit) and comp.endswith(lit)
            else:
                continue
            if good:
                c.ok(R_NAME, f"{name}:prefix:{ev.loc}")
            else:
                c.bad(R_NAME, f"{name}:prefix", f"directories named {comp.replace('#', '<number>')} are looked for as {lit!r}", ev.loc)
        if ev.kind == "call" and str(ev.callee) in (".glob", ".rglob", "glob.glob") and ev.args and ev.args[0].op == "const":
            import fnmatch
            pat = str(ev.args[0].args[0])
            if all(fnmatch.fnmatchcase(comp.replace("#", k), pat.split("/")[0]) for k in ("7", "12")):
                c.ok(R_NAME, f"{name}:prefix:{ev.loc}")
            else:
                c.bad(R_NAME, f"{name}:prefix", f"directories named {comp.replace('#', '<number>')} are looked for as {pat!r}", ev.loc)
    nums = set()
    for ev in r.events("k"):
        if ev.kind == "substore" and isinstance(ev.d.get("value"), T) or ev.kind == "call" and str(ev.callee) == ".append" and ev.args:
            v = ev.value if ev.kind == "substore" else ev.args[0]
            if any(x is d for x in subterms(v)) and not any(x.op == "call" and x.args[0].op == "sym" for x in subterms(v)):
                nums.add((v, ev.loc))
    for v, loc in nums:
        got = [fold(v, {d: comp.replace("#", k)}) for k in ("7", "12")]
        if all(g is None for g in got):
            c.unknown(R_TEXT, name, f"{show(v)[:80]}")
        elif [str(g) for g in got] == ["7", "12"]:
            c.ok(R_TEXT, f"{name}:{loc}")
        else:
            c.bad(R_TEXT, name, f"the number in {comp.replace('#', '<number>')} is taken to be {show(v)[:60]}", loc)


class Fail(Exception):
    pass


def fold(t, env):
    """Constant folding of string operations; None when not understood."""
    def go(t):
        if t in env:
            return env[t]
        o = t.op
        if o == "const":
            return t.args[0]
        if o == "slice":
            return slice(*[None if x is None else go(x) for x in t.args])
        if o == "dim":
            return len(go(t.args[0]))
        if o == "un" and t.args[0] == "-":
            return -go(t.args[1])
        if o == "bin" and t.args[0] == "+":
            return go(t.args[1]) + go(t.args[2])
        if o == "sub":
            return go(t.args[0])[go(t.args[1])]
        if o == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.int", "builtins.len", "builtins.str"):
            return {"int": int, "len": len, "str": str}[t.args[0].args[0][9:]](*[go(x) for x in t.args[1]])
        if o == "call" and t.args[0].op == "attr" and t.args[0].args[1] in (
                "split", "rsplit", "removeprefix", "replace", "strip", "lstrip", "rstrip", "partition", "rpartition", "splitlines", "removesuffix"):
            return getattr(go(t.args[0].args[0]), t.args[0].args[1])(*[go(x) for x in t.args[1]])
        raise Fail
    try:
        return go(t)
    except Fail:
        return None
    except Exception as ex:
        return f"{type(ex).__name__}"


def load(c, w, name, e, ws):
    kws = dict(e.kwargs or ())
    for s in ws:
        state = s.value.op == "call" and s.value.args[0].op == "attr" and s.value.args[0].args[1] == "state_dict"
        wo = kws.get("weights_only")
        whole = s.value.op == "call" and s.value.args[0].op == "sym"
        if not whole:
            c.ok(R_LOAD, f"{name}:{e.loc}")
        elif wo is not None and is_const(wo, False):
            c.ok(R_LOAD, f"{name}:{e.loc}")
        elif wo is None or is_const(wo, True):
            c.bad(R_LOAD, name, "the whole model is saved, but only weights can be loaded from the file", e.loc)
        else:
            c.unknown(R_LOAD, name, f"weights_only={show(wo)[:40]}")


def parse(c, r, w, name, e, ws):
    """Numbers joined by a separator are split at it again."""
    seps = set()
    for s in ws:
        v = s.value
        tail = ""
        if v.op == "bin" and v.args[0] == "+" and v.args[2].op == "const":
            tail, v = str(v.args[2].args[0]), v.args[1]
        if v.op == "call" and v.args[0].op == "attr" and v.args[0].args[1] == "join" and v.args[0].args[0].op == "const":
            seps.add((v.args[0].args[0].args[0], tail))
        elif str(s.e.callee) == "numpy.savetxt":
            seps.add(("\n", "\n"))
        elif v.op == "fstr" and v.args and v.args[-1].op == "const":
            seps.add((v.args[-1].args[0], v.args[-1].args[0]))
    h = e.d.get("result")
    if h is None or not seps:
        c.unknown(R_TEXT, name, "how the recorded samples are written")
        return
    for ev in r.events("k"):
        if ev.kind != "iter" or not any(x is h for x in subterms(ev.iterable)):
            continue
        it = r.i.iter_source(ev.iterable)
        if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] == "builtins.map" and len(it.args[1]) > 1:
            it = it.args[1][1]
        for sep, tail in seps:
            txt = sep.join(["7", "12", "3"]) + tail
            got = lines(it, h, txt)
            if got is None:
                c.unknown(R_TEXT, name, f"{show(it)[:60]}")
            elif numbers(got) == [7, 12, 3]:
                c.ok(R_TEXT, f"{name}:{ev.loc}")
            else:
                c.bad(R_TEXT, name, f"numbers written with {sep!r} between them are read by {show(it)[-60:]}", ev.loc)


def numbers(xs):
    try:
        return [int(x) for x in xs]
    except Exception:
        return None


def lines(it, h, txt):
    hs = {h, mk("enter", h)}
    if it in hs:
        return txt.splitlines()
    if it.op == "call" and it.args[0].op == "attr" and it.args[0].args[1] == "readlines" and it.args[0].args[0] in hs:
        return txt.splitlines()
    env = {}
    for x in subterms(it):
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("read", "read_text") and (x.args[0].args[0] in hs or x is h):
            env[x] = txt
    if h not in hs or not env:
        return None
    got = fold(it, env)
    return got if isinstance(got, list) else None


# ---------------------------------------------------------------- command line

def cli(c):
    q = CLI + "main"
    if c.repo.func(q) is None:
        c.unknown(R_CLI, q, "function not found")
        return
    r = functions(c.repo)
    r.fcall(q, "k")
    c.functions |= r.i.inlined

    def part(t):
        """Which element of the partition a term is."""
        while t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.int" and t.args[1]:
            t = t.args[1][0]
        if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "partition" and t.args[1].op == "const":
            return t.args[1].args[0]
        return None
    found = 0

    def check(k, v, loc):
        nonlocal found
        found += 1
        if k == "num_subsets":
            if v.op == "bin" and v.args[0] == "-" and (part(v.args[1]), part(v.args[2])) == (1, 0):
                c.ok(R_CLI, k)
            elif part(v) is not None or v.op == "bin" and part(v.args[1]) is not None or v.op == "const":
                c.bad(R_CLI, k, f"num_subsets is {short(v)}, the partition is given by its start and its end", loc)
            else:
                c.unknown(R_CLI, k, show(v)[:80])
        elif k in ("start_id", "total_num_subsets"):
            want = 0 if k == "start_id" else 2
            if part(v) == want:
                c.ok(R_CLI, k)
            elif part(v) is not None or v.op == "bin" and part(v.args[1]) is not None or v.op == "const":
                c.bad(R_CLI, k, f"{k} is {short(v)}", loc)
            else:
                c.unknown(R_CLI, k, show(v)[:80])
        else:
            p = plain(r.i, v)
            if p.op == "call" and p.args[0].op == "ext" and p.args[0].args[0] == "builtins.range":
                a = p.args[1]
                if len(a) == 2 and part(a[0]) == 0 and part(a[1]) == 1:
                    c.ok(R_CLI, k)
                elif all(part(x) is not None or x.op in ("const", "bin") for x in a):
                    c.bad(R_CLI, k, f"indices are range({', '.join(short(x) for x in a)})", loc)
                else:
                    c.unknown(R_CLI, k, show(p)[:80])
            else:
                c.unknown(R_CLI, k, show(p)[:80])

    def short(v):
        n = part(v)
        if n is not None:
            return f"partition[{n}]"
        if v.op == "bin":
            return f"{short(v.args[1])} {v.args[0]} {short(v.args[2])}"
        return show(v)[:30]
    want = ("num_subsets", "start_id", "total_num_subsets", "indices")
    seen = set()
    for e in r.events("k"):
        if e.kind == "substore" and isinstance(e.d.get("index"), T) and e.index.op == "const" and e.index.args[0] in want:
            check(e.index.args[0], e.value, e.loc)
            seen.add((e.index.args[0], e.value))
        if e.kind == "call" and (str(e.callee) == "<value>" or str(e.callee).startswith(W)):
            for k, v in e.kwargs or ():
                if k in want:
                    check(k, v, e.loc)
    for u, o in r.i.objs.items():
        if o["kind"] == "dict":
            for k, v in entries(r, u):
                if k.op == "const" and k.args[0] in want and (k.args[0], v) not in seen:
                    check(k.args[0], v, o.get("loc", ""))
    if not found:
        c.unknown(R_CLI, q, "the arguments of the retraining functions were not recognised")
    # the samples that are left out by default are those of the loader
    loaders = [e for e in r.events("k") if e.kind == "call" and str(e.callee).endswith("DataLoader")]
    for e in r.events("k"):
        if e.kind != "substore" or not (e.base.op == "attr" and e.base.args[1] == "partition") or not is_const(e.index, 1):
            continue
        for ld in loaders:
            kws = dict(ld.kwargs or ())
            ds = ld.args[0] if ld.args else kws.get("dataset")
            restricted = any(not is_const(x, None) for x in alts(kws["sampler"])) if kws.get("sampler") is not None else False
            for x in alts(e.value):
                if x.op == "dim" and ds is not None and x.args[0] is ds and restricted:
                    c.bad(R_CLI, "default-range", "by default samples are left out up to the size of the dataset, but the loader only goes through a part of it", e.loc)
                elif x.op == "dim":
                    c.ok(R_CLI, f"default-range:{show(x)[:60]}")
