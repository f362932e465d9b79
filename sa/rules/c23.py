"""C23: a requested score normalisation is applied or refused."""
from __future__ import annotations

from .. import evals as E
from ..drive import FULL, IF, TEST, TRAIN, attributor
from ..num import ckpt_loop_positions
from ..scen import IFS, RPS, RPS_OPAQUE, TRACIN
from ..terms import NONE, T, alts, const, show
from .c01 import base_alloc
from .c17 import accepts

R_DIV = "scores-divided"
R_FORM = "documented-denominator"
R_SRC = "denominator-of-the-same-batch"
R_NONE = "no-normalisation-unless-requested"
R_UNIT = "normalised-on-both-sides"
LOADERS = (TRAIN, TEST, FULL)
KEEP = ("detach", "cpu", "to", "float", "double", "clone", "contiguous", "unsqueeze", "squeeze", "view", "reshape", "clamp_min",
        "clamp", "clamp_min_", "expand", "nan_to_num", "flatten", "expand_as", "type_as", "cuda", "clamp_", "nan_to_num_")
KEEPF = ("clamp", "clamp_min", "maximum", "nan_to_num", "unsqueeze", "squeeze", "reshape", "clip", "abs")


def run(c):
    c.rule(R_DIV, "with a normalisation requested, every score that is stored is divided by one per-training-sample "
                  "denominator, or every path raises")
    c.rule(R_FORM, "method 'l': square root of a sum over parameters of a product of two training representations, one of "
                   "them curvature-transformed; method 'theta': norm over parameters of a transformed training representation")
    c.rule(R_SRC, "the denominator is computed from the training batch and checkpoint of the score it divides, and from no "
                  "test data")
    c.rule(R_NONE, "without a requested normalisation no stored score is divided by a quantity computed from the data")
    c.rule(R_UNIT, "with normalised gradients (TracIn) or activations (RPS) requested, both factors of the inner product "
                   "are normalised per sample; without, neither is")
    for cl in IFS:
        for m in ("attribute", "self_attribute"):
            if not accepts(c.repo, IF + cl, m):
                c.unknown(R_DIV, f"{cl}.{m}", "takes no relatif_method")
                continue
            for meth in ("l", "theta", None):
                with c.guard(f"{cl}.{m}[{meth}]"):
                    relatif(c, cl, m, meth)
    for m in ("attribute", "self_attribute"):
        for on in (True, False):
            with c.guard(f"TracIn.{m}[normalized_grad={on}]"):
                r = attributor(c.repo, TRACIN, init=dict(normalized_grad=const(on)))
                p = dict(train_dataloader=TRAIN)
                if m == "attribute":
                    p["test_dataloader"] = TEST
                res = r.call(m, key="main", **p)
                unit(c, r, res, f"TracIn.{m}[normalized_grad={on}]", on)
    for on in (True, False):
        with c.guard(f"RPS.attribute[normalize_preactivate={on}]"):
            r = attributor(c.repo, RPS, init=dict(normalize_preactivate=const(on)), opaque=RPS_OPAQUE)
            r.call("cache", key="cache", full_train_dataloader=FULL)
            res = r.call("attribute", key="main", train_dataloader=TRAIN, test_dataloader=TEST)
            unit(c, r, res, f"RPS.attribute[normalize_preactivate={on}]", on)
    c.need(R_DIV, 15)
    c.need(R_UNIT, 4)


# ------------------------------------------------------------------ shape of stored values
def name_of(t):
    if t.op == "call":
        f = t.args[0]
        if f.op == "attr":
            return f.args[1], f.args[0]
        if f.op in ("ext", "class") and isinstance(f.args[0], str):
            return f.args[0].rsplit(".", 1)[-1], None
    return None, None


def operands(t):
    """Tensor operands of a call (receiver first)."""
    n, recv = name_of(t)
    a = [x for x in t.args[1] if isinstance(x, T)]
    return n, ([recv] if recv is not None else []) + a, dict(t.args[2])


def divisors(t, out, facs, depth=0):
    """Divisors and factors of the multiplicative structure of a stored value."""
    if depth > 40:
        return
    o = t.op
    if o == "bin":
        op, a, b = t.args
        if op == "/":
            divisors(a, out, facs, depth + 1)
            out.append(b)
            return
        if op in ("*", "@"):
            divisors(a, out, facs, depth + 1)
            divisors(b, out, facs, depth + 1)
            return
    if o in ("matmul",):
        for x in t.args:
            divisors(x, out, facs, depth + 1)
        return
    if o == "T":
        return divisors(t.args[0], out, facs, depth + 1)
    if o == "sub":
        if t.args[1].op in ("slice", "tuple") and t.args[0].op not in ("sym", "attr", "obj", "call"):
            return divisors(t.args[0], out, facs, depth + 1)
    if o == "un":
        return divisors(t.args[1], out, facs, depth + 1)
    if o == "call":
        n, ops, kw = operands(t)
        if n in ("div", "true_divide", "divide", "div_") and len(ops) >= 2:
            divisors(ops[0], out, facs, depth + 1)
            out.append(ops[1])
            return
        if n == "reciprocal" and ops:
            out.append(ops[0])
            return
        if n in ("mul", "multiply", "matmul", "mm", "mul_", "bmm", "inner"):
            for x in ops[:2]:
                divisors(x, out, facs, depth + 1)
            return
        if n == "einsum":
            for x in ops[1:]:
                divisors(x, out, facs, depth + 1)
            return
        if n in KEEP or n in KEEPF or n in ("sum", "t", "transpose", "diagonal", "diag", "where"):
            if ops:
                return divisors(ops[0], out, facs, depth + 1)
        if n == "rsqrt" and ops:
            out.append(t)
            return
    facs.append(t)


def values(r):
    """(event, kind of update, value term) for every store into the returned result."""
    res = r.results["main"]
    if res is None:
        return
    targets = set()
    for v in alts(res):
        a, _ = base_alloc(v)
        if a is not None:
            targets.add(a)
    for e in r.events("main"):
        if e.kind == "substore":
            b, _ = base_alloc(e.base)
            if b in targets and e.value is not None:
                yield e, e.op, e.value


def expand(r, t):
    return E.deep(r, t)


def train_elems(r, xs):
    return {x for x in xs if x.op == "elem" and x.args[0] is TRAIN}


def ckpts_of(i, xs):
    out = set()
    for x in xs:
        tc = E.task_call(x)
        if tc and "ckpt_idx" in tc[1]:
            out.add(tc[1]["ckpt_idx"])
        if x.op == "pick":
            out |= {a for a in x.args[2:] if isinstance(a, T) and a.op == "idx" and
                    ckpt_loop_positions(i, a.args[0], 3) is not None}
    return out


# ------------------------------------------------------------------ relative influence
def relatif(c, cl, m, meth):
    cons = f"{cl}.{m}[{meth}]"
    c.scenarios.append(cons)

    def nonnull(t):
        if t.op in ("bin", "matmul", "T") or t.op == "call" and t.args[0].op == "attr" and \
                t.args[0].args[1] in KEEP + ("sqrt", "norm", "sum"):
            return True
        return None
    r = attributor(c.repo, IF + cl, nonnull=nonnull)
    r.call("cache", key="cache", full_train_dataloader=FULL)
    p = dict(train_dataloader=TRAIN, relatif_method=const(meth) if meth else NONE)
    if m == "attribute":
        p["test_dataloader"] = TEST
    res = r.call(m, key="main", **p)
    c.functions |= r.i.inlined
    if res is None:
        if meth is None:
            c.bad(R_NONE, cons, "no path returns normally", "")
        else:
            c.ok(R_DIV, cons, "refused on every path")
        return
    seen = False
    for e, op, value in values(r):
        vs = alts(value)
        for v in vs:
            out, facs = [], []
            if op in ("/", "/="):
                out.append(v)
            divisors(v, out, facs)
            mine = [d for d in out if TRAIN in {x.args[0] for x in expand(r, d) if x.op == "elem"}
                    or any(x.op == "elem" and x.args[0] in LOADERS for x in expand(r, d))]
            if meth is None:
                if mine:
                    c.bad(R_NONE, cons, f"scores are divided by {show(mine[0], 4)[:120]} although no normalisation is "
                          f"requested", e.loc)
                else:
                    c.ok(R_NONE, cons)
                seen = True
                continue
            fx = set()
            for f in facs:
                fx |= expand(r, f)
            if op not in ("/", "/=") and not train_elems(r, fx):
                continue        # not a score (zeroing, padding)
            seen = True
            if not mine:
                if op in ("/", "/="):
                    continue
                if any(op2 in ("/", "/=") for _, op2, _ in values(r)):
                    c.unknown(R_DIV, cons, "the result is divided in a separate step")
                    continue
                c.bad(R_DIV, cons, f"an unnormalised score is stored when relatif_method={meth!r} is requested", e.loc)
                continue
            if len(mine) > 1:
                c.bad(R_DIV, cons, f"the score is divided {len(mine)} times", e.loc)
                continue
            c.ok(R_DIV, cons)
            source(c, r, cons, e, mine[0], fx)
            form(c, r, cons, e, mine[0], meth)
    if not seen:
        c.unknown(R_DIV, cons, "no store of a score into the result found")


def source(c, r, cons, e, d, fx):
    dx = expand(r, d)
    el = {x for x in dx if x.op == "elem"}
    if any(x.args[0] is TEST for x in el):
        c.bad(R_SRC, cons, "the denominator is computed from test data", e.loc)
        return
    want, got = train_elems(r, fx), train_elems(r, el)
    # the curvature may have been estimated on the same loader elsewhere: only batches read in the storing loops count
    want_l = {x.args[1] for x in want if x.args[1] in e.loops}
    got_l = {x.args[1] for x in got}
    if not got:
        c.bad(R_SRC, cons, "the denominator does not depend on the training batch", e.loc)
        return
    if want_l and not (got_l & want_l):
        c.bad(R_SRC, cons, "the denominator belongs to another training batch than the score", e.loc)
        return
    if any(x.op == "prev" for x in dx):
        c.unknown(R_SRC, cons, "the denominator may be carried over from an earlier iteration")
        return
    ck, fk = ckpts_of(r.i, dx), ckpts_of(r.i, fx)
    if fk and ck - fk:
        c.bad(R_SRC, cons, f"the denominator is computed with checkpoint {', '.join(show(x, 4) for x in ck - fk)}, the score "
              f"with {', '.join(show(x, 4) for x in fk)}", e.loc)
        return
    c.ok(R_SRC, cons)


def strip(t):
    """Remove operations that keep the value (up to clamping from below) and its per-sample meaning."""
    while True:
        if t.op == "sub" and t.args[1].op in ("tuple", "slice", "const"):
            t = t.args[0]
            continue
        if t.op == "bin" and t.args[0] == "+" and t.args[2].op == "const":
            t = t.args[1]
            continue
        if t.op == "bin" and t.args[0] == "+" and t.args[1].op == "const":
            t = t.args[2]
            continue
        if t.op == "call":
            n, ops, kw = operands(t)
            if n in KEEP + KEEPF and ops:
                t = ops[0]
                continue
        if t.op in ("max", "min"):
            xs = [x for x in t.args if isinstance(x, T) and x.op != "const"]
            if len(xs) == 1:
                t = xs[0]
                continue
        return t


def axis(t, ops, kw, pos):
    d = kw.get("dim", kw.get("axis"))
    if d is None and len(ops) > pos:
        d = ops[pos]
    return d.args[0] if d is not None and d.op == "const" else ("tuple" if d is not None else None)


def parse(t):
    """('sqrt', x) / ('sum', a, b) / ('norm', x) / None, with the reduced axis last."""
    t = strip(t)
    if t.op == "bin" and t.args[0] == "**" and t.args[2].op == "const" and t.args[2].args[0] == 0.5:
        return ("sqrt", t.args[1])
    if t.op == "bin" and t.args[0] == "**" and t.args[2].op == "const" and t.args[2].args[0] == 2:
        return ("mul", t.args[1], t.args[1])
    if t.op == "bin" and t.args[0] == "*":
        return ("mul", t.args[1], t.args[2])
    if t.op == "call":
        n, ops, kw = operands(t)
        if n in ("sqrt", "sqrt_") and ops:
            return ("sqrt", ops[0])
        if n == "pow" and len(ops) > 1 and ops[1].op == "const":
            return ("sqrt", ops[0]) if ops[1].args[0] == 0.5 else ("mul", ops[0], ops[0]) if ops[1].args[0] == 2 else None
        if n in ("square",) and ops:
            return ("mul", ops[0], ops[0])
        if n in ("mul", "multiply") and len(ops) > 1:
            return ("mul", ops[0], ops[1])
        if n == "sum" and ops:
            return ("sum", ops[0], axis(t, ops, kw, 1))
        if n in ("norm", "vector_norm") and ops:
            ordr = kw.get("p", kw.get("ord"))
            if ordr is None and len(ops) > 1 and "dim" in kw:
                ordr = ops[1]
            if ordr is not None and not (ordr.op == "const" and ordr.args[0] in (None, 2, 2.0)):
                return ("other-norm",)
            return ("norm", ops[0], axis(t, ops, kw, 2))
        if n == "einsum" and len(ops) == 3 and ops[0].op == "const":
            eq = str(ops[0].args[0]).replace(" ", "")
            i, _, o = eq.partition("->")
            a, _, b = i.partition(",")
            if a == b and len(a) == 2 and o == a[0]:
                return ("dot", ops[1], ops[2])
    return None


def form(c, r, cons, e, d, meth):
    def curved(x):
        return any(y is FULL or y.op == "call" and y.args[0].op == "ext" and "ihvp" in str(y.args[0].args[0])
                   for y in expand(r, x))

    def trained(x):
        return bool(train_elems(r, expand(r, x)))
    p = parse(d)
    if p is None:
        c.unknown(R_FORM, cons, f"denominator {show(d, 4)[:100]} not understood")
        return
    if p[0] == "other-norm":
        c.bad(R_FORM, cons, f"the denominator is not the Euclidean norm: {show(d, 4)[:100]}", e.loc)
        return
    if p[0] == "norm":
        if meth == "l":
            c.bad(R_FORM, cons, "method 'l' divides by a norm, documented: sqrt(g^T H^-1 g)", e.loc)
        elif p[2] not in (1, -1):
            c.bad(R_FORM, cons, f"the norm is taken over axis {p[2]}, expected one norm per sample", e.loc)
        elif not curved(p[1]):
            c.bad(R_FORM, cons, "method 'theta' divides by the norm of an untransformed gradient, documented: ||H^-1 g||", e.loc)
        else:
            c.ok(R_FORM, cons)
        return
    if p[0] in ("sum", "dot"):
        c.bad(R_FORM, cons, "the square root of the denominator is missing", e.loc)
        return
    if p[0] != "sqrt":
        c.unknown(R_FORM, cons, f"denominator {show(d, 4)[:100]} not understood")
        return
    q = parse(p[1])
    ab = None
    if q and q[0] == "dot":
        ab = q[1], q[2]
    elif q and q[0] == "sum":
        if q[2] not in (1, -1):
            c.bad(R_FORM, cons, f"the denominator sums over axis {q[2]}, expected one value per sample", e.loc)
            return
        w = parse(q[1])
        if w and w[0] == "mul":
            ab = w[1], w[2]
    if ab is None:
        c.unknown(R_FORM, cons, f"denominator {show(d, 4)[:100]} not understood")
        return
    same = ab[0] is ab[1]
    if meth == "theta":
        if same and curved(ab[0]):
            c.ok(R_FORM, cons)
        else:
            c.bad(R_FORM, cons, "method 'theta' does not divide by ||H^-1 g||", e.loc)
        return
    if same:
        c.bad(R_FORM, cons, "method 'l' multiplies a representation with itself, documented: g^T H^-1 g", e.loc)
    elif not (trained(ab[0]) and trained(ab[1])):
        c.bad(R_FORM, cons, "a factor of g^T H^-1 g does not depend on the training batch", e.loc)
    elif not (curved(ab[0]) or curved(ab[1])):
        c.bad(R_FORM, cons, "method 'l' applies no inverse curvature to either factor", e.loc)
    else:
        c.ok(R_FORM, cons)


# ------------------------------------------------------------------ normalised gradients / activations
def normalised(t):
    """The value normalised per row, 'axis' when normalised along the wrong axis, or None."""
    t = strip_keep(t)
    if t.op == "call":
        n, ops, kw = operands(t)
        if n == "normalize" and ops:
            pn = kw.get("p") or (ops[1] if len(ops) > 1 else None)
            dn = kw.get("dim") or (ops[2] if len(ops) > 2 else None)
            if pn is not None and not (pn.op == "const" and pn.args[0] in (2, 2.0)):
                return "axis"
            if dn is not None and not (dn.op == "const" and dn.args[0] in (1, -1)):
                return "axis"
            return ops[0]
    if t.op == "bin" and t.args[0] == "/":
        p = parse(t.args[2])
        if p and p[0] == "norm":
            return t.args[1] if p[2] in (1, -1) else "axis"
    return None


def strip_keep(t):
    while t.op == "call":
        n, ops, kw = operands(t)
        if n in ("detach", "cpu", "to", "float", "clone", "contiguous", "nan_to_num") and ops:
            t = ops[0]
            continue
        break
    if t.op == "T":
        return strip_keep(t.args[0])
    return t


def products(t, out, depth=0):
    """Inner products (a, b) in a stored or returned value."""
    if depth > 30:
        return
    if t.op == "matmul":
        out.append(tuple(t.args[:2]))
        return
    if t.op == "call":
        n, ops, kw = operands(t)
        if n == "einsum" and len(ops) == 3:
            out.append((ops[1], ops[2]))
            return
        if n in ("matmul", "mm", "inner"):
            out.append((ops[0], ops[1]))
            return
        if n in KEEP or n in ("mul", "div", "sum"):
            for x in ops[:2]:
                products(x, out, depth + 1)
            return
    if t.op in ("bin",) and t.args[0] in ("*", "/", "+", "@"):
        if t.args[0] == "@":
            out.append((t.args[1], t.args[2]))
            return
        for x in t.args[1:]:
            products(x, out, depth + 1)
    elif t.op in ("T",):
        products(t.args[0], out, depth + 1)
    elif t.op == "call" and name_of(t)[0] == "sum":
        products(operands(t)[1][0], out, depth + 1)


def unit(c, r, res, cons, on):
    c.scenarios.append(cons)
    c.functions |= r.i.inlined
    if res is None:
        (c.ok if on else c.bad)(R_UNIT, cons, "refused on every path")
        return
    vals = [(e.loc, v) for e, op, val in values(r) for v in alts(val)] or \
        [("", v) for v in alts(res)]
    seen = False
    for loc, v in vals:
        out = []
        products(v, out)
        if not out:
            if on and any(x.op == "call" and name_of(x)[0] in ("ones", "ones_like", "full") for x in expand(r, v)) and \
                    not any(x.op == "elem" and x.args[0] in (TEST,) for x in expand(r, v)):
                c.ok(R_UNIT, cons, "the inner product of a unit vector with itself")
                seen = True
            continue
        for a, b in out:
            seen = True
            na = [normalised(x) for x in alts(strip_keep(a))]
            nb = [normalised(x) for x in alts(strip_keep(b))]
            if "axis" in na + nb:
                c.bad(R_UNIT, cons, "the gradients are not normalised to unit Euclidean length per sample", loc)
            elif on and (None in na or None in nb):
                side = "left" if None in na else "right"
                c.bad(R_UNIT, cons, f"the {side} factor of the inner product is not normalised", loc)
            elif not on and any(x is not None for x in na + nb):
                c.bad(R_UNIT, cons, "a factor is normalised although no normalisation is requested", loc)
            else:
                c.ok(R_UNIT, cons)
    if not seen:
        c.unknown(R_UNIT, cons, "no inner product found in the result")
