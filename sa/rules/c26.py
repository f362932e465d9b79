"""C26: metrics pair every score with the sample it belongs to."""
from __future__ import annotations

from ..drive import functions
from ..terms import T, alts, is_const, mk, show, sym
from .c21 import reorderings
from .c22 import subterms

R_AXIS = "rows-are-train-columns-are-test"
R_TEST = "same-test-sample"
R_SEL = "scores-of-the-recorded-samples"
R_MODEL = "one-value-per-model-in-order"
R_TOP = "largest-scores-first"
R_KIND = "positions-and-indices-not-mixed"
R_ROW = "values-and-indices-of-the-same-model"

M = "dattri.metric.metrics."
G = "dattri.metric.ground_truth."
B = "dattri.metric.britteness."
CORR = ("spearmanr", "pearsonr", "kendalltau", "weightedtau")
PASS = ("cpu", "detach", "numpy", "float", "double", "long", "int", "to", "clone", "contiguous", "astype", "cuda", "type", "copy")
PASSF = ("torch.as_tensor", "torch.tensor", "torch.from_numpy", "numpy.asarray", "numpy.array")


def run(c):
    c.rule(R_AXIS, "the score matrix is indexed with training samples in its rows and test samples in its columns")
    c.rule(R_TEST, "scores of a test sample are compared with the ground truth of the same test sample, for every test sample")
    c.rule(R_SEL, "the scores compared with the ground truth of a model are those of the training samples recorded for it")
    c.rule(R_MODEL, "both sides of a comparison hold one value per model, in the same order of models")
    c.rule(R_TOP, "samples are examined or removed from the highest score down")
    c.rule(R_KIND, "positions in the score vector are not taken for indices into the dataset")
    c.rule(R_ROW, "values and training indices of one model are recorded in the same place")
    for name in ("lds", "loo_corr"):
        with c.guard(name):
            corr(c, name)
    with c.guard("mislabel_detection_auc"):
        mislabel(c)
    with c.guard("brittleness"):
        brittle(c)
    with c.guard("ground_truth"):
        loo_truth(c)
        lds_truth(c)


# ---------------------------------------------------------------- views

class View:
    def __init__(self, src, axes, fixed=None, chosen=None, summed=()):
        self.src, self.axes, self.fixed, self.chosen, self.summed = src, tuple(axes), dict(fixed or {}), chosen, frozenset(summed)

    def but(self, **k):
        d = dict(src=self.src, axes=self.axes, fixed=self.fixed, chosen=self.chosen, summed=self.summed)
        d.update(k)
        return View(**d)


class Views:
    """Which axes a value has in terms of the score matrix and the ground truth."""

    def __init__(self, r, roots):
        self.r, self.i, self.roots, self.memo = r, r.i, roots, {}

    def of(self, t):
        if not isinstance(t, T):
            return None
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._of(t)
        return self.memo[t]

    def _of(self, t):
        op, a = t.op, t.args
        if t in self.roots:
            return self.roots[t]
        if op == "sub" and a[0] is sym("ground_truth") and is_const(a[1], 0):
            return self.roots.get("gt")
        if op == "sub" and a[0] is sym("ground_truth") and is_const(a[1], 1):
            return self.roots.get("idx")
        if op == "T":
            v = self.of(a[0])
            return v and v.but(axes=v.axes[::-1])
        if op in ("phi", "mix"):
            vs = [self.of(x) for x in a]
            if all(vs) and all((v.src, v.axes, v.fixed, v.chosen, v.summed) == (vs[0].src, vs[0].axes, vs[0].fixed, vs[0].chosen, vs[0].summed) for v in vs):
                return vs[0]
            return None
        if op == "attr" and a[1] in ("T", "mT"):
            v = self.of(a[0])
            return v and v.but(axes=v.axes[::-1])
        if op == "attr" and a[1] == "data":
            return self.of(a[0])
        if op == "sub":
            v = self.of(a[0])
            return v and self.index(v, a[1])
        if op == "elem":
            return self.element(a[0], a[1])
        if op == "call":
            f, args, kw = a[0], a[1], dict(a[2] or ())
            if f.op == "attr":
                return self.method(self.of(f.args[0]), f.args[1], args, kw)
            if f.op == "ext":
                n = f.args[0]
                if n in PASSF and args:
                    return self.of(args[0])
                if n == "torch.stack" and args:
                    return self.stack(args[0], kw.get("dim", args[1] if len(args) > 1 else None))
                if n in ("torch.transpose", "torch.t", "torch.permute", "torch.sum", "torch.mean", "torch.index_select", "torch.swapaxes") and args:
                    return self.method(self.of(args[0]), n.split(".")[1], args[1:], kw)
        return None

    def method(self, v, name, args, kw):
        if v is None:
            return None
        if name in PASS:
            return v
        if name == "t" or name in ("transpose", "swapaxes") and len(v.axes) == 2:
            return v.but(axes=v.axes[::-1])
        if name == "permute" and len(args) == len(v.axes) and all(x.op == "const" for x in args):
            return v.but(axes=tuple(v.axes[x.args[0]] for x in args))
        if name in ("sum", "mean", "nansum"):
            d = kw.get("dim", kw.get("axis", args[0] if args else None))
            if isinstance(d, T) and d.op == "const" and isinstance(d.args[0], int) and not kw.get("keepdim"):
                k = d.args[0] % len(v.axes)
                return v.but(axes=v.axes[:k] + v.axes[k + 1:], summed=v.summed | {v.axes[k]})
            return None
        if name == "index_select" and len(args) == 2 and args[0].op == "const":
            k = args[0].args[0] % len(v.axes)
            return self.fancy(v, k, self.of(args[1]))
        return None

    def index(self, v, ix):
        items = list(ix.args) if ix.op == "tuple" else [ix]
        k = 0
        for x in items:
            if k >= len(v.axes) and not is_const(x, None):
                return None
            if is_const(x, Ellipsis):
                k = len(v.axes) - (len(items) - items.index(x) - 1)
                continue
            if x.op == "slice":
                if all(is_const(y, None) or not isinstance(y, T) for y in x.args[:2]) and not (len(x.args) > 2 and isinstance(x.args[2], T) and not is_const(x.args[2], None)):
                    k += 1
                    continue
                if k < len(v.axes) and v.axes[k] == "train":
                    k += 1               # some rows, not those of the recorded samples
                    continue
                return None
            w = self.of(x)
            if w is not None and w.src == "idx":
                v = self.fancy(v, k, w)
                if v is None:
                    return None
                k += len(w.axes)
                continue
            if x.op in ("const", "idx", "elem", "ind", "bin", "un") and (x.op != "const" or isinstance(x.args[0], int)):
                v = v.but(axes=v.axes[:k] + v.axes[k + 1:], fixed={**v.fixed, v.axes[k]: x})
                continue
            return None
        return v

    def fancy(self, v, k, w):
        if w is None or w.src != "idx":
            return None
        return v.but(axes=v.axes[:k] + w.axes + v.axes[k + 1:], chosen=(v.axes[k], w.summed), fixed={**v.fixed, **w.fixed})

    def element(self, it, lid):
        """Element of an iteration over the first axis."""
        v = self.of(it)
        if v is None or not v.axes:
            return None
        return v.but(axes=v.axes[1:], fixed={**v.fixed, v.axes[0]: mk("idx", lid)})

    def stack(self, lst, dim):
        if lst.op != "obj":
            return None
        items = self.i.contents.get(lst.args[0], ())
        vs = {self.of(x) for how, x in items if how in ("elem", "append", "comp", "yield")}
        if len(items) != 1 or len(vs) != 1 or None in vs:
            return None
        v = vs.pop()
        ls = set(self.i.objs[lst.args[0]].get("loops", ()))
        over = [k for k, x in v.fixed.items() if x.op in ("idx", "ind", "elem")]
        inner = [k for k in over if not ls or v.fixed[k].args[-1] in ls] or over
        if not over and ls:
            inner = ["copy"]
        if len(inner) != 1:
            return None
        d = dim.args[0] if isinstance(dim, T) and dim.op == "const" else 0 if dim is None else None
        if d is None:
            return None
        d %= len(v.axes) + 1
        return v.but(axes=v.axes[:d] + (inner[0],) + v.axes[d:], fixed={k: x for k, x in v.fixed.items() if k != inner[0]})


def corr(c, name):
    q = M + name
    if c.repo.func(q) is None:
        c.unknown(R_TEST, name, "function not found")
        return
    r = functions(c.repo)
    r.fcall(q, "k")
    roots = {sym("score"): View("score", ("train", "test")),
             "gt": View("gt", ("model", "test")),
             "idx": View("idx", ("model", "member") if name == "lds" else ("model",))}
    v = Views(r, roots)
    n = 0
    for e in r.events("k"):
        if e.kind != "call" or str(e.callee).rsplit(".", 1)[-1] not in CORR or len(e.args) < 2:
            continue
        n += 1
        pair = [v.of(x) for x in e.args[:2]]
        if None in pair:
            c.unknown(R_TEST, f"{name}:{e.loc}", "the values that are compared were not recognised")
            continue
        x, y = sorted(pair, key=lambda w: w.src != "score")
        if (x.src, y.src) != ("score", "gt"):
            c.bad(R_TEST, f"{name}:sides", f"{name} compares {x.src} with {y.src}", e.loc)
            continue
        # axes
        wrong = [w for w in (x,) if w.chosen and w.chosen[0] != "train"]
        if wrong:
            c.bad(R_AXIS, f"{name}:selection", f"{name} selects {wrong[0].chosen[0]} samples with the indices of training samples", e.loc)
            continue
        a, b = x.fixed.get("test"), y.fixed.get("test")
        if a is None or b is None:
            got = sorted(k for w in (x, y) for k in w.fixed)
            c.bad(R_AXIS, f"{name}:axes", f"{name} compares values of one {'/'.join(got) or 'unknown'} sample, not of one test sample", e.loc)
            continue
        c.ok(R_AXIS, f"{name}:{e.loc}")
        if a is not b:
            c.bad(R_TEST, f"{name}:test", f"{name} compares the scores of test sample {show(a)[:40]} with the ground truth of test sample {show(b)[:40]}", e.loc)
            continue
        lid = a.args[-1] if a.op in ("idx", "ind", "elem") else None
        lab = covers(r, v, lid) if lid is not None else None
        if lab is not None and lab != "test":
            c.bad(R_TEST, f"{name}:all", f"{name} goes through as many test samples as there are {lab} samples", e.loc)
            continue
        c.ok(R_TEST, f"{name}:{e.loc}")
        if x.chosen is None:
            c.bad(R_SEL, f"{name}:recorded", f"{name} compares the scores of {'/'.join(x.axes) or 'all'} samples as they are, the ground truth says which training samples it is about", e.loc)
            continue
        if name == "lds" and ("train" in x.summed or "member" not in x.summed):
            c.bad(R_SEL, f"{name}:sum", f"{name} does not sum the scores over the members of a subset", e.loc)
            continue
        c.ok(R_SEL, f"{name}:{e.loc}")
        if x.axes == y.axes == ("model",):
            c.ok(R_MODEL, f"{name}:{e.loc}")
        else:
            c.bad(R_MODEL, f"{name}:models", f"{name} compares values per {'/'.join(x.axes) or '?'} with values per {'/'.join(y.axes) or '?'}", e.loc)
    for e in r.events("k"):
        if e.kind == "iter" and e.d.get("lid") is not None:
            pass
    if not n:
        c.unknown(R_TEST, name, "no comparison of scores and ground truth recognised")
    for lid, used in uses(r, v).items():
        lab = covers(r, v, lid)
        for k, loc in used:
            if lab is None or lab == k or k == "member":
                continue
            c.bad(R_MODEL if k == "model" else R_TEST, f"{name}:loop:{k}", f"{name} goes through as many {k}s as there are {lab} samples", loc)
    c.functions |= r.i.inlined


def uses(r, v):
    out = {}
    for e in r.events("k"):
        if e.kind == "subload" and isinstance(e.d.get("index"), T):
            w, b = v.of(mk("sub", e.base, e.index)), v.of(e.base)
            if w and b:
                for k, x in w.fixed.items():
                    if k not in b.fixed and x.op == "idx":
                        out.setdefault(x.args[0], set()).add((k, e.loc))
    return out


def covers(r, v, lid):
    """Label of the axis a loop goes along."""
    info = r.i.loopinfo.get(lid)
    if not info:
        return None
    it = r.i.iter_source(info["iter"])
    if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] == "builtins.range" and len(it.args[1]) == 1:
        d = it.args[1][0]
        if d.op == "dim":
            w = v.of(d.args[0])
            if w and isinstance(d.args[1], int) and d.args[1] < len(w.axes):
                return w.axes[d.args[1]]
        return None
    w = v.of(it)
    return w.axes[0] if w and w.axes else None


# ---------------------------------------------------------------- ranking

def ranking(t, root, depth=0):
    """+1 if positions come from the lowest value up, -1 from the highest down, None if unknown."""
    if not isinstance(t, T) or depth > 20:
        return None
    if t.op in ("phi", "mix"):
        ks = {ranking(x, root, depth + 1) for x in t.args}
        return ks.pop() if len(ks) == 1 else None
    if t.op == "sub":
        b, ix = t.args
        if ix.op == "slice":
            k = ranking(b, root, depth + 1)
            st = ix.args[2] if len(ix.args) > 2 else None
            if k is not None and isinstance(st, T) and st.op in ("const", "un"):
                s = st.args[0] if st.op == "const" else -1
                if isinstance(s, int) and s < 0:
                    return -k
            return k
        if is_const(ix, 1) and b.op == "call" and (b.args[0].op == "attr" and b.args[0].args[1] in ("sort", "topk") or b.args[0].op == "ext" and b.args[0].args[0] in ("torch.sort", "torch.topk")):
            return order(b, root)
        return ranking(ix, root, depth + 1)      # values taken in the order of positions
    if t.op == "attr" and t.args[1] == "indices":
        return order(t.args[0], root)
    if t.op == "call":
        f, args = t.args[0], t.args[1]
        n = f.args[0] if f.op == "ext" else f.args[1] if f.op == "attr" else ""
        last = n.rsplit(".", 1)[-1]
        if last == "argsort":
            return order(t, root)
        x = f.args[0] if f.op == "attr" else args[0] if args else None
        if last in ("flip", "flipud", "reversed"):
            k = ranking(x, root, depth + 1)
            return -k if k is not None else None
        if last in PASS + ("tolist", "list", "tuple", "asarray", "array", "as_tensor"):
            return ranking(x, root, depth + 1)
    return None


class Moved(Exception):
    """Positions are those in a rearranged copy of the scores."""


def moved(x, root):
    if not isinstance(x, T):
        return False
    if x.op == "un":
        return moved(x.args[1], root)
    if x.op == "sub" and x.args[1].op == "slice" and len(x.args[1].args) > 2:
        st = x.args[1].args[2]
        return isinstance(st, T) and (is_const(st, -1) or st.op == "un") and sign(x.args[0], root) is not None
    if x.op == "call" and x.args[0].op in ("attr", "ext"):
        f, args = x.args[0], x.args[1]
        n = (f.args[0] if f.op == "ext" else f.args[1]).rsplit(".", 1)[-1]
        src = f.args[0] if f.op == "attr" else args[0] if args else None
        if n in ("flip", "flipud", "roll"):
            return sign(src, root) is not None or moved(src, root)
        if n in PASS:
            return moved(src, root)
    return False


def order(t, root):
    """Direction of a sorting call on the scores."""
    f, args, kw = t.args[0], t.args[1], dict(t.args[2] or ())
    x = f.args[0] if f.op == "attr" else args[0] if args else None
    n = (f.args[0] if f.op == "ext" else f.args[1]).rsplit(".", 1)[-1]
    s = sign(x, root)
    if s is None:
        if moved(x, root):
            raise Moved
        return None
    d = kw.get("descending")
    if n == "topk":
        lg = kw.get("largest")
        return s if is_const(lg, False) else -s
    if d is not None and d.op != "const":
        return None
    return -s if d is not None and d.args[0] else s


def sign(x, root):
    if not isinstance(x, T):
        return None
    if x is root:
        return 1
    if x.op in ("phi", "mix"):
        ks = {sign(y, root) for y in x.args}
        return ks.pop() if len(ks) == 1 else None
    if x.op == "un" and x.args[0] == "-":
        s = sign(x.args[1], root)
        return -s if s else None
    if x.op == "call" and x.args[0].op == "attr":
        if x.args[0].args[1] == "neg":
            s = sign(x.args[0].args[0], root)
            return -s if s else None
        if x.args[0].args[1] in PASS + ("reshape", "view", "flatten", "ravel", "squeeze"):
            return sign(x.args[0].args[0], root)
    if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in PASSF and x.args[1]:
        return sign(x.args[1][0], root)
    return None


def mislabel(c):
    q = M + "mislabel_detection_auc"
    if c.repo.func(q) is None:
        c.unknown(R_TOP, q, "function not found")
        return
    r = functions(c.repo)
    r.fcall(q, "k")
    n = 0
    for e in r.events("k"):
        if e.kind == "call" and str(e.callee).rsplit(".", 1)[-1] in ("set", "isin", "frozenset") or e.kind == "subload":
            for x in (e.args if e.kind == "call" else (mk("sub", e.base, e.index),) if e.loops else ()):
                try:
                    k = ranking(x, sym("score"))
                except Moved:
                    n += 1
                    c.bad(R_KIND, "mislabel_detection_auc:moved", "positions in a rearranged copy of the scores are taken for positions of samples", e.loc)
                    continue
                if k is None:
                    continue
                n += 1
                if k < 0:
                    c.ok(R_TOP, f"mislabel_detection_auc:{e.loc}")
                else:
                    c.bad(R_TOP, "mislabel_detection_auc", "mislabel_detection_auc inspects the samples with the lowest scores first", e.loc)
    if not n:
        c.unknown(R_TOP, "mislabel_detection_auc", "the order of inspection was not recognised")
    # the sets that are compared both hold positions
    for e in r.events("k"):
        if e.kind == "call" and str(e.callee) == ".intersection":
            ks = [kinds(r, x, sym("score"), ()) for x in (e.recv,) + tuple(e.args)]
            if None not in ks and len(set(ks)) > 1:
                c.bad(R_KIND, "mislabel_detection_auc", f"{ks[0]}s are compared with {ks[1]}s", e.loc)
            else:
                c.ok(R_KIND, f"mislabel_detection_auc:{e.loc}")
    c.functions |= r.i.inlined


# ---------------------------------------------------------------- positions and indices

def kinds(r, t, score, sampler, depth=0):
    """'position' (in the score vector), 'index' (into the dataset), 'score' or None."""
    if not isinstance(t, T) or depth > 25:
        return None
    go = lambda x: kinds(r, x, score, sampler, depth + 1)
    if t in sampler:
        return "index"
    if t is score:
        return "score"
    if t.op in ("phi", "mix"):
        ks = {go(x) for x in t.args}
        return ks.pop() if len(ks) == 1 else None
    if t.op == "attr" and t.args[1] == "indices" and t.args[0].op == "call":
        return "position"
    if t.op == "sub":
        k = go(t.args[0])
        if t.args[0].op == "call" and str(t.args[0].args[0].args[0]).endswith("where"):
            return "position"
        return k
    if t.op == "elem":
        return go(t.args[0])
    if t.op == "idx":
        info = r.i.loopinfo.get(t.args[0])
        src = r.i.iter_source(info["iter"]) if info else None
        if src is not None and src.op == "call" and src.args[0].op == "ext" and src.args[0].args[0] == "builtins.enumerate":
            return "position"
        return None
    if t.op == "obj":
        o = r.i.objs[t.args[0]]
        ks = {go(v) for how, v in r.i.contents.get(t.args[0], ()) if how != "val"}
        if isinstance(o.get("from"), T):
            ks.add(go(o["from"]))
        ks.discard(None)
        return ks.pop() if len(ks) == 1 else None
    if t.op == "bin" and t.args[0] in ("-", "&", "|"):
        return go(t.args[1])
    if t.op == "call":
        f, args = t.args[0], t.args[1]
        n = f.args[0] if f.op == "ext" else f.args[1] if f.op == "attr" else ""
        last = str(n).rsplit(".", 1)[-1]
        x = f.args[0] if f.op == "attr" else args[0] if args else None
        if last in ("argsort", "topk", "sort", "nonzero", "where", "arange", "range"):
            return "position"
        if last in PASS + ("tolist", "list", "tuple", "set", "frozenset", "sorted", "asarray", "array", "as_tensor", "flip", "int", "reversed",
                           "difference", "intersection", "setdiff1d", "unique", "reshape", "ravel", "flatten", "tqdm", "item", "copy"):
            return go(x)
    return None


def brittle(c):
    q = B + "brittleness"
    if c.repo.func(q) is None:
        c.unknown(R_KIND, q, "function not found")
        return
    r = functions(c.repo)
    r.fcall(q, "k")
    samplers = set()
    for t in all_terms(r, "k"):
        if t.op == "attr" and t.args[1] == "indices" and t.args[0].op == "attr" and t.args[0].args[1] == "sampler":
            samplers.add(t)
    n = 0
    for e in r.events("k"):
        sides = None
        if e.kind == "call":
            name = str(e.callee).rsplit(".", 1)[-1]
            if name in ("difference", "difference_update", "setdiff1d", "isin", "intersection"):
                sides = ((e.recv,) if e.recv is not None and str(e.callee).startswith(".") else ()) + tuple(e.args[:2])
            for x in e.args:
                for y in subterms(x):
                    if y.op == "bin" and y.args[0] in ("-", "&") and all(z.op == "obj" and r.i.objs[z.args[0]]["kind"] in ("set", "frozenset") for z in y.args[1:]):
                        sides = tuple(y.args[1:])
            if name in ("SubsetSampler", "SubsetRandomSampler", "Subset") or e.d.get("callee") and name == "__init__" and "Sampler" in str(e.callee):
                got = [kinds(r, x, sym("scores"), samplers) for x in e.args]
                if "position" in got:
                    c.bad(R_KIND, "brittleness:sampler", "the retraining sampler is made of positions in the score vector, not of dataset indices", e.loc)
                elif "index" in got:
                    c.ok(R_KIND, f"brittleness:{e.loc}")
        if e.kind == "contains":
            sides = (e.d.get("item"), e.d.get("container"))
        if sides:
            ks = [kinds(r, x, sym("scores"), samplers) for x in sides]
            if None in ks or len(ks) < 2:
                continue
            n += 1
            if len(set(ks)) > 1:
                c.bad(R_KIND, "brittleness:removed", f"{ks[1]}s are removed from {'indices' if ks[0] == 'index' else ks[0] + 's'}: a score belongs to the sample its sampler gives at that position", e.loc)
            else:
                c.ok(R_KIND, f"brittleness:{e.loc}")
    if not n:
        c.unknown(R_KIND, "brittleness", "the removal of samples was not recognised")
    m = 0
    for e in r.events("k"):
        if e.kind == "subload" and isinstance(e.d.get("index"), T) and e.index.op == "slice":
            lo, hi = [None if not isinstance(x, T) or is_const(x, None) or is_const(x, 0) else x for x in e.index.args[:2]]
            try:
                k = ranking(e.base, sym("scores"))
            except Moved:
                back = [y for y in subterms(e.base) if (y.op == "sub" and y.args[1].op == "slice" or y.op == "call" and "flip" in str(y.args[0].args[-1]))
                        and sym("scores") not in set(subterms(y))]
                if not back and e.base.op == "sub":
                    c.bad(R_KIND, "brittleness:moved", "positions in a rearranged copy of the scores are taken for positions of the sampler", e.loc)
                continue
            if k is None or (lo is None) == (hi is None):
                continue
            end = hi if lo is None else lo
            neg = any(x.op == "un" and x.args[0] == "-" or x.op == "const" and isinstance(x.args[0], int) and x.args[0] < 0
                      or x.op == "bin" and x.args[0] == "*" and any(y.op == "const" and y.args[0] == -1 for y in x.args[1:]) for x in alts(end))
            if (lo is None) == neg:
                continue
            m += 1
            if (lo is None) == (k < 0):
                c.ok(R_TOP, f"brittleness:{e.loc}")
            else:
                c.bad(R_TOP, "brittleness", "brittleness removes the samples with the lowest scores first", e.loc)
    if not m:
        c.unknown(R_TOP, "brittleness", "the choice of samples was not recognised")
    c.functions |= r.i.inlined


def all_terms(r, key):
    seen = set()
    for e in r.events(key):
        for v in e.d.values():
            for x in (v if isinstance(v, (tuple, list)) else (v,)):
                if isinstance(x, T) and x not in seen:
                    for y in subterms(x):
                        if y not in seen:
                            seen.add(y)
                            yield y


# ---------------------------------------------------------------- ground truth

def items_of(t):
    """What an index or value is derived from: loop indices and elements."""
    return {x for x in subterms(t) if x.op in ("idx", "elem", "ind", "pick")}


def loo_truth(c):
    q = G + "calculate_loo_ground_truth"
    if c.repo.func(q) is None:
        c.unknown(R_ROW, q, "function not found")
        return
    r = functions(c.repo)
    r.fcall(q, "k")
    c.functions |= r.i.inlined
    out = r.results["k"]
    parts = [x for t in alts(out) if t.op == "tuple" for x in t.args]
    got = []
    for e in r.events("k"):
        if e.kind == "substore" and any(e.base is y for p in parts for y in subterms(p)):
            ix = e.index.args[0] if e.index.op == "tuple" else e.index
            got.append((e, ix, e.value, e.base))
        if e.kind == "call" and str(e.callee) == ".append" and e.recv is not None and any(e.recv is y for p in parts for y in subterms(p)) and e.loops:
            got.append((e, mk("idx", e.loops[-1]), e.args[0], e.recv))
    for e in r.events("k"):
        if e.kind == "subload" and e.base.op == "obj" and isinstance(e.d.get("index"), T) and e.index.op == "idx":
            info = r.i.loopinfo.get(e.index.args[0])
            if info is None:
                continue
            x, y = reorderings(r.i, info["iter"]), reorderings(r.i, e.base)
            if x[0] is y[0] and x[1] != y[1]:
                c.bad(R_ROW, "loo:order", "the models are gone through in one order and looked up in another", e.loc)
    vals = [g for g in got if any(str(x.args[0].args[0]) == "target_func" for x in subterms(g[2]) if x.op == "call" and x.args[0].op == "sym")]
    inds = [g for g in got if g not in vals and any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "builtins.int" for x in subterms(g[2]))]
    same_order(c, "loo", out)
    if not vals or not inds:
        c.unknown(R_ROW, "calculate_loo_ground_truth", "the recorded values and indices were not recognised")
        return
    for e, ix, v, base in vals:
        for e2, ix2, v2, _ in inds:
            if ix is not ix2 and e.loops == e2.loops:
                c.bad(R_ROW, "loo:row", f"the value of a model is stored in row {show(ix)[:40]} and its index in row {show(ix2)[:40]}", e2.loc)
                continue
            a = {x for x in items_of(v) if x.op in ("elem", "pick")}
            b = {x for x in items_of(v2) if x.op in ("elem", "pick")}
            if e.loops == e2.loops and a and b and not (a & b):
                c.bad(R_ROW, "loo:model", f"the value stored in a row is that of {show(min(a, key=str))[:60]}, the index that of {show(min(b, key=str))[:60]}", e.loc)
            elif e.loops != e2.loops and same_iteration(r, e.loops, e2.loops) is False:
                c.bad(R_ROW, "loo:order", "values and indices are recorded in loops over differently ordered models", e2.loc)
            else:
                c.ok(R_ROW, f"loo:{e.loc}:{e2.loc}")


def same_iteration(r, a, b):
    its = []
    for ls in (a, b):
        info = r.i.loopinfo.get(ls[-1]) if ls else None
        if not info:
            return None
        it = r.i.iter_source(info["iter"])
        while it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] in ("builtins.enumerate", "tqdm.tqdm") and it.args[1]:
            it = it.args[1][0]
        its.append(it)
    return its[0] is its[1] or None if its[0] is its[1] else (False if all(x.op == "obj" for x in its) else None)


def over_map(t):
    """The values or items of the map from subsets to directories are gone through."""
    while True:
        if t.op == "dictview":
            t = t.args[-1]
        elif t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("values", "items"):
            t = t.args[0].args[0]
        elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.enumerate", "builtins.list", "tqdm.tqdm") and t.args[1]:
            t = t.args[1][0]
        else:
            return t.op == "sub" and is_const(t.args[1], "subset_dir_map")


MOVES = ("flip", "flipud", "sort", "argsort", "roll", "unique", "msort", "flip_", "index_select", "randperm")


def moves(t):
    """What changes the order of the rows of a returned value after it was filled."""
    out = []
    while True:
        if t.op in ("phi", "mix"):
            got = {tuple(moves(x)) for x in t.args}
            return out + list(got.pop()) if len(got) == 1 else None
        if t.op == "neg" or t.op == "un":
            t = t.args[-1]
            continue
        if t.op == "call":
            f = t.args[0]
            n = str(f.args[-1]).rsplit(".", 1)[-1]
            src = f.args[0] if f.op == "attr" else t.args[1][0] if t.args[1] else None
            if f.op == "ext" and n in ("tensor", "stack") and src is not None and src.op == "obj" or not isinstance(src, T):
                return out
            if n in MOVES:
                out.append(n + "(" + ", ".join(show(x) for x in (t.args[1] if f.op == "attr" else t.args[1][1:])) + ")")
            elif f.op == "ext" and f.args[0].split(".")[0] not in ("torch", "numpy", "builtins"):
                return out
            t = src
            continue
        if t.op == "sub" and t.args[1].op == "slice" and not is_const(t.args[1].args[2], None):
            out.append("[" + show(t.args[1]) + "]")
            t = t.args[0]
            continue
        return out


def same_order(c, name, out):
    """Both returned tensors keep the order they were filled in."""
    for t in alts(out) if out is not None else ():
        if t.op != "tuple" or len(t.args) != 2:
            continue
        a, b = moves(t.args[0]), moves(t.args[1])
        if a is None or b is None:
            continue
        if a != b:
            c.bad(R_ROW, f"{name}:returned", f"the values are returned {'through ' + ', '.join(a) if a else 'in the order of the models'}, "
                  f"the indices {'through ' + ', '.join(b) if b else 'in the order of the models'}", c.repo.func(G + f"calculate_{name}_ground_truth").loc())
        else:
            c.ok(R_ROW, f"{name}:returned")


def lds_truth(c):
    q = G + "calculate_lds_ground_truth"
    if c.repo.func(q) is None:
        c.unknown(R_ROW, q, "function not found")
        return
    r = functions(c.repo)
    r.fcall(q, "k")
    c.functions |= r.i.inlined
    out = r.results["k"]
    parts = [x for t in alts(out) if t.op == "tuple" for x in t.args]

    def which(t):
        """Number of the subset whose directory is looked up."""
        ks = set()
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            for y in subterms(x):
                if y in seen:
                    continue
                seen.add(y)
                if y.op == "sub" and y.args[0].op == "sub" and is_const(y.args[0].args[1], "subset_dir_map"):
                    ks.add(y.args[1])
                if y.op == "elem" and over_map(y.args[0]):
                    ks.add(mk("idx", y.args[1]))
                if y.op == "obj":
                    todo += [v for _, v in r.i.contents.get(y.args[0], ())]
        return ks

    n = 0
    for e in r.events("k"):
        row = None
        if e.kind == "substore" and any(e.base is y for p in parts for y in subterms(p)):
            row, v = (e.index.args[0] if e.index.op == "tuple" else e.index), e.value
        elif e.kind == "call" and str(e.callee) == ".append" and e.recv is not None and e.recv.op == "obj" and e.loops \
                and any(e.recv is y for p in parts for y in subterms(p)):
            row, v = mk("idx", r.i.objs[e.recv.args[0]].get("_", e.loops[0])), e.args[0]
        if row is None:
            continue
        ks = which(v)
        if len(ks) != 1:
            continue
        n += 1
        k = ks.pop()
        if k is row:
            c.ok(R_ROW, f"lds:{e.loc}")
        else:
            c.bad(R_ROW, f"lds:{e.kind}", f"what belongs to subset {show(k)[:40]} is recorded as that of subset {show(row)[:40]}", e.loc)
    same_order(c, "lds", out)
    if not n:
        c.unknown(R_ROW, "calculate_lds_ground_truth", "the recorded values and indices were not recognised")
