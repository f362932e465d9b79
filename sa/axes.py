"""Axis inference: which samples the rows / columns of a value stand for.

A tag is ('B', loader, loop) - rows of the batch of ``loader`` read in ``loop``,
('N', loader) - all samples of ``loader`` in loader order, 'O' - some other dimension,
'1' - a size-one dimension, None - unknown.  A shape is a tuple of tags (Ellipsis may end
it when the rank is unknown) or None when nothing is known.  ``conflicts`` collects
operations that combine rows of different sample sets elementwise.
"""
from __future__ import annotations

from .interp import is_alloc
from .terms import T, alts, is_const, poly, show

PASS_METHODS = {"detach", "cpu", "clone", "to", "float", "double", "half", "contiguous", "cuda", "requires_grad_", "abs",
                "sqrt", "clamp", "clamp_min", "clamp_max", "neg", "exp", "log", "nan_to_num", "type",
                "nan_to_num_", "bfloat16", "numpy", "tanh", "sigmoid", "pow", "softmax", "type_as", "div_", "mul_", "add_"}
PASS_FUNCS = {"torch.nan_to_num", "torch.nn.functional.normalize", "torch.abs", "torch.sqrt", "torch.clamp",
              "torch.exp", "torch.sigmoid", "torch.softmax", "torch.autograd.Variable", "torch.clone",
              "torch.nn.functional.relu", "torch.tanh", "torch.log", "torch.neg", "torch.as_tensor"}
IHVP = ("dattri.func.hessian.ihvp", "dattri.func.hessian.hvp")


class Axes:
    def __init__(self, interp):
        self.i = interp
        self.conflicts = []
        self.memo = {}
        self.active = set()
        self._loop_loader = {}

    # -------------------------------------------------------------- loaders / loops
    def is_loader(self, t):
        return t.op == "sym" and t.args[0].endswith("_dataloader")

    def loop_loader(self, lid):
        """Loader a loop iterates over (through enumerate/zip/tqdm), or None."""
        info = self.i.loopinfo.get(lid)
        if not info:
            return None
        return self._src_loader(info["iter"])

    def _src_loader(self, it):
        it = self.i.iter_source(it)
        if self.is_loader(it):
            return it
        if it.op == "call" and it.args[0].op == "ext":
            n = it.args[0].args[0]
            if n == "builtins.enumerate" and it.args[1]:
                return self._src_loader(it.args[1][0])
            if n == "builtins.zip":
                ls = {x for x in (self._src_loader(a) for a in it.args[1]) if x is not None}
                if len(ls) == 1:
                    return ls.pop()
            if n == "builtins.range" and len(it.args[1]) == 1:
                d = it.args[1][0]
                if d.op == "dim" and self.is_loader(d.args[0]):
                    return d.args[0]     # range(len(loader)): batch indices
        return None

    def samples_loop(self, lid):
        """Loader whose *samples* (not batches) a loop enumerates."""
        info = self.i.loopinfo.get(lid)
        if not info:
            return None
        it = self.i.iter_source(info["iter"])
        if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] == "builtins.range" and len(it.args[1]) == 1:
            return self.count_of(it.args[1][0])
        return None

    def count_of(self, d):
        """Loader whose number of samples ``d`` is, or None."""
        if d.op == "dim" and d.args[1] == 0:
            b = d.args[0]
            if b.op == "attr" and b.args[1] == "sampler" and self.is_loader(b.args[0]):
                return b.args[0]
            if is_alloc(b) or b.op in ("call", "matmul", "bin", "T"):
                s = self.of(b)
                if s and s[0] and s[0] is not Ellipsis and isinstance(s[0], tuple) and s[0][0] == "N":
                    return s[0][1]
        return None

    def batch_elems(self, t):
        """elem(loader) terms a value is built from."""
        return set(x for x in self.i.expand(t) if x.op == "elem" and self.is_loader(x.args[0]))

    def batch_tag(self, data):
        es = self.batch_elems(data)
        if len(es) == 1:
            e = es.pop()
            return ("B", e.args[0], e.args[1])
        return None

    # -------------------------------------------------------------- shapes
    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.active:
            return "rec"
        self.active.add(t)
        try:
            r = self._of(t)
        finally:
            self.active.discard(t)
        if r == "rec":
            return "rec"
        self.memo[t] = r
        return r

    def o(self, t):
        r = self.of(t)
        return None if r == "rec" else r

    def join(self, shapes):
        rec = any(s == "rec" for s in shapes)
        shapes = [s for s in shapes if s != "rec" and s is not None]
        if not shapes:
            return "rec" if rec else None
        r = shapes[0]
        for s in shapes[1:]:
            if s == r:
                continue
            if len(s) != len(r):
                return None
            r = tuple(a if a == b else None for a, b in zip(r, s))
        return r

    def dimtag(self, d):
        if is_const(d, 1):
            return "1"
        if d.op == "const":
            return "O"
        c = self.count_of(d)
        if c is not None:
            return ("N", c)
        if d.op == "dim" and d.args[1] == 0:
            b = d.args[0]
            if b.op == "attr" and b.args[1] == "dataset" and self.is_loader(b.args[0]):
                return ("D", b.args[0])
            if self.is_loader(b):
                return ("batches", b)
        if d.op == "dim":
            s = self.o(d.args[0])
            k = d.args[1]
            if s and isinstance(k, int) and k < len(s) and s[k] is not Ellipsis and Ellipsis not in s[:k + 1]:
                return s[k]
            return None
        if d.op == "bin" and d.args[0] == "-":
            # length of a slice hi - lo
            sl = self.slice_tag(d.args[2], d.args[1])
            if sl and sl[0] == "ok":
                if not self.cut(d.args[1], sl[1][1]):
                    return ("W", sl[1][1])     # more than the rows of a partial last batch
                return sl[1]
            return None
        if d.op == "attr" and d.args[1] == "batch_size" and self.is_loader(d.args[0]):
            return ("W", d.args[0])
        return None

    def bounds(self, hi):
        his = [hi]
        if hi.op == "min":
            his = list(hi.args)
        elif hi.op == "call" and hi.args[0].op == "ext" and hi.args[0].args[0] == "builtins.min":
            his = []
            for x in hi.args[1]:
                if x.op in ("list", "tuple"):
                    his.extend(x.args)
                else:
                    his.append(x)
        return his

    def cut(self, hi, X):
        """The end of a block is not beyond the samples of its loader."""
        for h in self.bounds(hi):
            if self.count_of(h) is X:
                return True
            if h.op == "bin" and h.args[0] == "+" and any(self.is_rows(x, X) for x in h.args[1:]):
                return True
        return False

    def is_rows(self, t, X):
        g = self.dimtag(t)
        return isinstance(g, tuple) and g[0] == "B" and g[1] is X

    def scalar(self, t):
        if t.op in ("const", "idx", "ind", "psum", "dim", "cmp"):
            return True
        if t.op == "loopout":
            return self.scalar(t.args[0])
        if t.op == "bin":
            return self.scalar(t.args[1]) and self.scalar(t.args[2])
        if t.op == "un":
            return self.scalar(t.args[1])
        if t.op == "sym" and t.args[0].startswith("init:"):
            return True
        if t.op == "elem" and t.args[0].op == "sym" and t.args[0].args[0].startswith("init:"):
            return True
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in (
                "math.sqrt", "builtins.float", "builtins.int", "builtins.min", "builtins.max", "builtins.len"):
            return True
        if t.op == "phi":
            return all(self.scalar(x) for x in t.args)
        return False

    def _of(self, t):
        op, a = t.op, t.args
        if op == "phi":
            return self.join([self.of(x) for x in a])
        if op == "lv":
            info = self.i.lvinfo.get(t)
            return self.join([self.of(x) for x in info]) if info else None
        if op in ("ind", "psum"):
            return self.of(a[1])
        if op == "loopout":
            return self.join([self.of(a[0]), self.of(a[1])])
        if op in ("prev",):
            return self.of(a[0])
        if op == "un":
            return self.of(a[1])
        if op == "pick":
            s = self.of(a[0])
            return s
        if op == "elem":
            return None
        if op == "T":
            s = self.of(a[0])
            if s in (None, "rec"):
                return s
            if Ellipsis in s:
                return None
            return tuple(reversed(s))
        if op == "matmul":
            l, r = self.of(a[0]), self.of(a[1])
            ls = l if l not in (None, "rec") and Ellipsis not in l else None
            rs = r if r not in (None, "rec") and Ellipsis not in r else None
            if ls and rs and ls[-1] and rs[0 if len(rs) == 1 else -2]:
                x, y = ls[-1], rs[0 if len(rs) == 1 else -2]
                if isinstance(x, tuple) and isinstance(y, tuple) and x != y:
                    self.conflicts.append((t, f"contracts {self.name(x)} with {self.name(y)}"))
                if (isinstance(x, tuple)) != (isinstance(y, tuple)) and "1" not in (x, y):
                    self.conflicts.append((t, f"contracts {self.name(x)} with {self.name(y)}"))
            if ls and len(ls) == 1:
                return None
            if rs and len(rs) == 1:
                return ls[:-1] if ls else None
            return ((ls[-2] if ls else None), (rs[-1] if rs else None))
        if op == "bin":
            return self.binop(t, a[0], a[1], a[2])
        if op == "cmp":
            return None
        if op == "sub":
            return self.subscript(t)
        if op == "attr":
            if a[1] in ("data", "real"):
                return self.of(a[0])
            return None
        if op == "call":
            return self.call(t)
        return None

    def binop(self, t, op, l, r):
        if self.scalar(l):
            return self.of(r)
        if self.scalar(r):
            return self.of(l)
        x, y = self.of(l), self.of(r)
        if x == "rec":
            return y
        if y == "rec":
            return x
        if x is None or y is None:
            k = x or y
            return tuple(None if z == "1" else z for z in k) if k is not None and len(k) >= 2 and Ellipsis not in k else None
        if Ellipsis in x or Ellipsis in y:
            return None
        n = max(len(x), len(y))
        x2 = ("1",) * (n - len(x)) + x
        y2 = ("1",) * (n - len(y)) + y
        out = []
        for p, q in zip(x2, y2):
            if p == q:
                out.append(p)
            elif p == "1":
                out.append(q)
            elif q == "1":
                out.append(p)
            elif p is None or q is None:
                out.append(p or q)
            else:
                self.conflicts.append((t, f"combines {self.name(p)} with {self.name(q)} elementwise"))
                out.append(None)
        return tuple(out)

    def subscript(self, t):
        b, i = t.args
        if b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0].endswith("get_final_layer_io"):
            dl = dict(b.args[2]).get("dataloader")
            if dl is not None and self.is_loader(dl):
                return (("N", dl), "O")
            return None
        if b.op == "elem" and self.is_loader(b.args[0]):
            return (("B", b.args[0], b.args[1]), Ellipsis)
        s = self.of(b)
        if s in (None, "rec"):
            return s
        items = i.args if i.op == "tuple" else (i,)
        out = []
        pos = 0
        for it in items:
            if is_const(it, None):
                out.append("1")
                continue
            if it.op == "const" and it.args[0] is Ellipsis:
                return None
            if pos >= len(s) or s[pos] is Ellipsis:
                return None
            if it.op not in ("slice", "const", "idx", "elem", "ind"):
                return self.fancy(items, s)
            if it.op == "slice":
                if is_const(it.args[0], None) and is_const(it.args[1], None):
                    out.append(s[pos])
                else:
                    out.append("O" if s[pos] == "O" else None)
            elif it.op in ("const", "idx", "elem", "ind"):
                pass
            else:
                return None
            pos += 1
        return tuple(out) + tuple(s[pos:])

    def fancy(self, items, s):
        """alpha[arange(n).unsqueeze(1), index_matrix]: the axes of the index arrays."""
        shapes = [self.o(x) for x in items]
        if len(items) == len(s) and all(x is not None and Ellipsis not in x for x in shapes):
            r = shapes[0]
            for x in shapes[1:]:
                if len(x) != len(r):
                    return None
                r = tuple(q if p == "1" else p if q == "1" else p if p == q else None for p, q in zip(r, x))
            return r
        return None

    def kw(self, t):
        return dict(t.args[2])

    def call(self, t):
        fn, args, kw = t.args[0], t.args[1], dict(t.args[2])
        if is_alloc(t):
            return self.alloc(t)
        if fn.op == "attr":
            return self.method(t, fn.args[0], fn.args[1], args, kw)
        if fn.op == "call":
            inner, inner_args = fn.args[0], fn.args[1]
            # gradient function applied to (params, data)
            if inner.op == "attr" and inner.args[1] in ("get_grad_loss_func", "get_grad_target_func"):
                if len(args) >= 2:
                    tag = self.batch_tag(args[1])
                    return (tag, "O")
                return None
            if inner.op == "ext":
                n = inner.args[0]
                if n.endswith(".random_project") and args:
                    s = self.of(args[0])
                    return (s[0], "O") if s not in (None, "rec") and s[0] is not Ellipsis else s if s == "rec" else None
                if n.startswith(IHVP) and args:
                    return self.of(args[-1])
                if n in ("torch.func.vmap", "torch.vmap", "torch._functorch.apis.vmap"):
                    es = [self.batch_tag(x) for x in args if self.batch_elems(x)]
                    if len(es) == 1 and es[0]:
                        if inner_args and inner_args[0].op == "sym":
                            return (es[0],)      # documented: one value per sample
                        return (es[0], Ellipsis)
                    return None
                if n in ("torch.func.grad",) and args:
                    return self.of(args[0])
            return None
        if fn.op == "pick" or fn.op == "phi":
            # stored callable (e.g. an arnoldi projector applied to a representation)
            fs = alts(fn.args[0]) if fn.op == "pick" else fn.args
            if all(x.op == "call" and x.args[0].op == "ext" and "project" in x.args[0].args[0] for x in fs) and args:
                s = self.of(args[0])
                return (s[0], "O") if s not in (None, "rec") and s[0] is not Ellipsis else None
            return None
        if fn.op == "sym" and fn.args[0] == "init:distance_func" and len(args) == 2:
            return (self.batch_tag(args[0]), self.batch_tag(args[1]))
        if fn.op == "ext":
            n = fn.args[0]
            if n == "torch.arange" and len(args) == 1:
                return (self.dimtag(args[0]),)
            if n in PASS_FUNCS and args:
                return self.of(args[0])
            if n == "torch.cdist" and len(args) >= 2:
                x, y = self.o(args[0]), self.o(args[1])
                return (x[0] if x else None, y[0] if y else None)
            if n in ("torch.cat", "torch.concat", "torch.concatenate", "torch.vstack"):
                dim = kw.get("dim", args[1] if len(args) > 1 else None)
                d0 = dim is None or is_const(dim, 0)
                return self.cat(args[0] if args else kw.get("tensors"), d0)
            if n == "torch.einsum" and args and args[0].op == "const":
                return self.einsum(t, args[0].args[0], args[1:])
            if n in ("torch.linalg.solve", "torch.cholesky_solve", "torch.linalg.lstsq") and len(args) >= 2:
                l, r = self.o(args[0]), self.o(args[1])
                if l and isinstance(l[-1], tuple):
                    self.conflicts.append((t, f"kernel matrix is indexed by {self.name(l[-1])}"))
                return r
            if n in ("torch.argsort", "torch.cumsum") and args:
                return self.of(args[0])
            if n in ("torch.mul", "torch.multiply", "torch.div", "torch.add", "torch.sub") and len(args) == 2:
                return self.binop(t, n, args[0], args[1])
            if n in ("torch.sum", "torch.mean", "torch.norm", "torch.linalg.norm", "torch.stack", "torch.unsqueeze",
                     "torch.flatten", "torch.squeeze") and args:
                if n == "torch.stack":
                    dim = kw.get("dim", args[1] if len(args) > 1 else None)
                    x = self.cat(args[0], False) if dim is None or is_const(dim, 0) else None
                    return x if x in (None, "rec") else (None, *x)
                return self.method(t, args[0], n.split(".")[-1], args[1:], kw)
            if n == "dattri.model_util.hook.get_final_layer_io":
                return None
        if fn.op == "sub":
            return None
        return None

    def method(self, t, recv, name, args, kw):
        if name in PASS_METHODS:
            return self.of(recv)
        s = self.of(recv)
        if s in (None, "rec"):
            return s
        dim = kw.get("dim", args[0] if args else None)
        k = dim.args[0] if dim is not None and dim.op == "const" and isinstance(dim.args[0], int) else None
        if name == "unsqueeze" and k is not None:
            if k < 0:
                if Ellipsis in s:
                    return None
                k += len(s) + 1
            if Ellipsis in s[:k]:
                return None
            return s[:k] + ("1",) + s[k:]
        if name == "squeeze":
            if k is None:
                return tuple(x for x in s if x != "1")
            if Ellipsis in s:
                return None
            return tuple(x for j, x in enumerate(s) if j != k % len(s) or x != "1")
        if name in ("flatten", "ravel"):
            if not args and not kw:
                if len(s) == 2 and s[1] is Ellipsis or len(s) == 1:
                    return (s[0],)
                nz = [x for x in s if x != "1"]
                if len(nz) == 1 and nz[0] is not Ellipsis:
                    return (nz[0],)
                return None
            if is_const(args[0] if args else kw.get("start_dim"), 1):
                return (s[0], "O")
            return None
        if name in ("sum", "mean", "norm", "amax", "amin"):
            if k is None or Ellipsis in s:
                return None
            keep = kw.get("keepdim")
            k %= len(s)
            if isinstance(s[k], tuple) and name in ("sum", "mean"):
                pass
            return tuple(("1" if (keep is not None and is_const(keep, True)) else None) if j == k else x
                         for j, x in enumerate(s) if j != k or (keep is not None and is_const(keep, True)))
        if name == "repeat" and len(args) == 2 and is_const(args[1], 1) and (len(s) == 1 or s[1:] == (Ellipsis,)):
            return (self.dimtag(args[0]), s[0])
        if name in ("view", "reshape"):
            if len(args) == 1 and is_const(args[0], -1):
                nz = [x for x in s if x != "1"]
                if len(nz) == 1 and nz[0] is not Ellipsis:
                    return (nz[0],)
                return None
            if len(args) == 2 and is_const(args[0], -1) and is_const(args[1], 1) and len(s) == 1:
                return (s[0], "1")
            if len(args) == 2 and is_const(args[1], -1) and is_const(args[0], 1) and len(s) == 1:
                return ("1", s[0])
            return None
        return None

    def alloc(self, t):
        fn, args, kw = t.args[0], t.args[1], dict(t.args[2])
        n = fn.args[0] if fn.op == "ext" else "." + fn.args[1]
        if n.endswith("_like"):
            return self.of(args[0]) if args else None
        size = kw.get("size", kw.get("shape"))
        dims = None
        if size is None:
            if not args:
                return None
            if args[0].op in ("tuple", "list"):
                dims = args[0].args
            elif n == "torch.full":
                dims = (args[0],)
            else:
                dims = args
        elif size.op in ("tuple", "list"):
            dims = size.args
        else:
            its = self.i.exact_items(size) if size.op == "obj" else None
            dims = its if its is not None else (size,)
        if len(dims) == 1 and dims[0].op == "attr" and dims[0].args[1] == "shape":
            return self.of(dims[0].args[0])
        if len(dims) == 1 and dims[0].op in ("sym", "call", "sub", "attr", "phi", "lv") and self.dimtag(dims[0]) is None:
            return None
        if len(dims) == 1 and dims[0].op == "obj":
            its = self.i.exact_items(dims[0])
            if its is None:
                return None
            dims = its
        return tuple(self.dimtag(d) for d in dims)

    def cat(self, c, dim0):
        if c is None:
            return None
        if c.op in ("tuple", "list"):
            items = [("append", x) for x in c.args]
        elif c.op == "obj":
            items = self.i.contents.get(c.args[0], ())
        else:
            return None
        shapes = []
        for how, v in items:
            if how not in ("append", "comp", "add", "yield", "elem"):
                return None
            shapes.append(self.of(v))
        s = self.join(shapes)
        if s in (None, "rec") or (dim0 and s[0] is None):
            if s != "rec" and dim0 and c.op == "obj" and all(how == "append" for how, _ in items):
                es = set()
                for _, v in items:
                    es |= self.batch_elems(v)
                if len(es) == 1:
                    # one piece per batch of this loader, whatever is computed from the batch
                    return (("N", es.pop().args[0]),) + (tuple(s[1:]) if s else (None,))
            return s
        if dim0:
            h = s[0]
            if isinstance(h, tuple) and h[0] == "B":
                return (("N", h[1]),) + s[1:]
            return (None,) + s[1:]
        if Ellipsis in s:
            return None
        return (s[0],) + tuple("O" if x == "O" else None for x in s[1:])

    def einsum(self, t, eq, ops):
        if "->" not in eq or "." in eq:
            return None
        ins, out = eq.replace(" ", "").split("->")
        ins = ins.split(",")
        if len(ins) != len(ops):
            return None
        tags = {}
        for letters, o in zip(ins, ops):
            s = self.o(o)
            if not s or Ellipsis in s:
                continue
            if len(s) != len(letters):
                return None
            for l, g in zip(letters, s):
                if g is None:
                    continue
                if l in tags and tags[l] != g and "1" not in (g, tags[l]):
                    self.conflicts.append((t, f"einsum pairs {self.name(tags[l])} with {self.name(g)}"))
                tags.setdefault(l, g)
        return tuple(tags.get(l) for l in out)

    def name(self, tag):
        if isinstance(tag, tuple):
            k = {"W": "as many rows as a full batch of", "B": "rows of a batch of", "N": "all samples of", "D": "the whole dataset behind",
                 "batches": "the number of batches of"}[tag[0]]
            return f"{k} {show(tag[1])}"
        return {"O": "a feature dimension", "1": "a dimension of size one", None: "?"}.get(tag, str(tag))

    # -------------------------------------------------------------- block slices
    def slice_tag(self, lo, hi):
        """Which batch rows lo:hi addresses: ('ok', tag) | ('bad', msg) | None (undecided)."""
        atoms = {}
        p = poly(lo, atoms)
        idxs = {}
        loaders_mentioned = set()
        for k in p:
            for aid in k:
                a = atoms[aid]
                if a.op == "idx":
                    idxs[a.args[0]] = a
        for a in atoms.values():
            for x in self.i.expand(a):
                if self.is_loader(x):
                    loaders_mentioned.add(x)
        if lo.op in ("psum", "ind") and is_const(lo.args[0], 0):
            # running offset advanced by the size of each batch
            lid, step = lo.args[2], lo.args[1]
            X = self.loop_loader(lid)
            if X is None:
                return None
            tag = self.dimtag(step)
            if tag == ("B", X, lid):
                return self._hi(lo, hi, X, lid, step)
            if isinstance(tag, tuple):
                return ("bad", f"the offset advances by {self.name(tag)} but the block belongs to {show(X)}")
            if step.op != "attr" or step.args[1] != "batch_size":
                return None
        if len(idxs) != 1:
            if not idxs and not atoms and is_const(lo, 0):
                return None
            return None
        lid, iterm = next(iter(idxs.items()))
        X = self.loop_loader(lid)
        if X is None:
            return None
        # lo == idx * X.batch_size exactly
        want_atom = None
        for a in atoms.values():
            if a.op == "attr" and a.args[1] == "batch_size" and self.is_loader(a.args[0]):
                want_atom = a
        if want_atom is None:
            facs = [a for a in atoms.values() if a is not iterm]
            for a in facs:
                tag = self.dimtag(a)
                if isinstance(tag, tuple) and tag != ("W", X) and p == {tuple(sorted((iterm.id, a.id))): 1}:
                    return ("bad", f"the batch index is scaled by {self.name(tag)}, which is not the same for every "
                                   f"batch of {show(X)}")
            if not facs and set(p) == {(iterm.id,)}:
                return ("bad", f"the block starts at {show(lo, 5)}, not after the rows of the batches before it")
            return None
        if want_atom.args[0] is not X:
            return ("bad", f"the index of a {show(X)} batch is scaled by {show(want_atom)}")
        key = tuple(sorted((iterm.id, want_atom.id)))
        if p != {key: 1}:
            return ("bad", f"the block starts at {show(lo, 5)} instead of batch index * {show(want_atom)}")
        return self._hi(lo, hi, X, lid, want_atom)

    def _hi(self, lo, hi, X, lid, step):
        his = self.bounds(hi)
        plo = poly(lo)
        good = False
        for h in his:
            if self.count_of(h) is not None:
                if self.count_of(h) is not X:
                    return ("bad", f"the block of {show(X)} is cut at the size of {show(self.count_of(h))}")
                continue
            if self.dimtag(h) == ("D", X):
                continue      # not smaller than the samples of the loader: slices end with the result
            ph = poly(h)
            d = dict(ph)
            for k, v in plo.items():
                d[k] = d.get(k, 0) - v
            d = {k: v for k, v in d.items() if v != 0}
            if d == poly(step) and len(d) == 1:
                good = True
                continue
            # lo + len(batch)
            if h.op == "bin" and h.args[0] == "+":
                ls = [x for x in h.args[1:] if poly(x) != plo]
                if len(ls) == 1 and self.dimtag(ls[0]) == ("B", X, lid):
                    good = True
                    continue
            ok_atoms = {}
            poly(h, ok_atoms)
            kn = all(a.op == "idx" or (a.op == "attr" and a.args[1] == "batch_size") or self.count_of(a) is not None
                     for a in ok_atoms.values())
            if kn:
                return ("bad", f"the block ends at {show(h, 5)}, not one batch after its start")
            return None
        if good:
            return ("ok", ("B", X, lid))
        if his and all(self.count_of(h) is X for h in his):
            return ("bad", f"the block extends to the end of {show(X)}")
        return None

    def index_domain(self, t, _d=0):
        """Tag of the set a single (or fancy) index ranges over."""
        if t.op == "slice":
            if is_const(t.args[0], None) and is_const(t.args[1], None):
                return "all"
            return self.slice_tag(t.args[0], t.args[1])
        if t.op == "idx":
            X = self.samples_loop(t.args[0])
            return ("ok", ("N", X)) if X is not None else None
        if t.op == "sub":
            b, i = t.args
            if b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] == "torch.argsort" and b.args[1]:
                dim = dict(b.args[2]).get("dim")
                s = self.o(b.args[1][0])
                if s and Ellipsis not in s:
                    k = -1
                    if dim is not None:
                        if dim.op != "const":
                            return None
                        k = dim.args[0]
                    g = s[k]
                    return ("ok", g) if isinstance(g, tuple) else None
        return None
