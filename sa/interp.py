"""Abstract interpreter over the Python syntax tree.

Flow-sensitive, context-sensitive (repository functions are analysed at each call),
join-based: states are merged where control flow merges and loops are iterated to a
fixpoint, so every path is covered without enumerating paths.  Values are provenance
terms (terms.py).  The interpreter records *events* (calls, stores, raises, loop
entries, resource acquire/release) annotated with the conditions, loops, held resources
and must-facts in force; the property rules query those events.
Nothing of the analysed repository is imported or executed.
"""
from __future__ import annotations

import ast

from .core import ClassInfo, FuncInfo, import_bindings
from .terms import (FALSE, NONE, T, TRUE, UNDEF, alts, attr, call, children, cmp, const, ext,
                    is_const, mk, neg, phi, poly, show, sub, sym)

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

# objects told apart by where they were made
IDENTITY = {"threading.Lock", "threading.RLock", "threading.Condition", "threading.Event", "threading.Semaphore",
            "threading.BoundedSemaphore", "threading.Barrier", "queue.Queue", "queue.SimpleQueue", "queue.LifoQueue",
            "queue.PriorityQueue", "collections.Counter", "concurrent.futures.ThreadPoolExecutor"}
ALLOCS = {"torch.zeros", "torch.ones", "torch.empty", "torch.full", "torch.zeros_like",
          "torch.empty_like", "torch.ones_like", "torch.full_like", "numpy.zeros", "numpy.ones",
          "numpy.empty", "numpy.full"}
METHOD_ALLOCS = {"new_zeros", "new_ones", "new_empty", "new_full"}

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
          ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|",
          ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
          ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
TORCH_BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/", "true_divide": "/", "multiply": "*",
             "divide": "/", "subtract": "-"}

# calls that cannot raise in a way relevant for resource pairing
BENIGN = {"append", "extend", "items", "keys", "values", "get", "named_modules", "modules",
          "register_forward_hook", "register_full_backward_hook", "register_forward_pre_hook",
          "register_hook", "register_backward_hook", "remove", "debug", "info", "warning", "error",
          "add", "clear", "named_parameters", "parameters", "eval", "train", "setdefault",
          "named_children", "children", "zero_grad", "detach", "numel", "dim", "size"}
BENIGN_EXT = {"builtins.len", "builtins.range", "builtins.enumerate", "builtins.isinstance",
              "builtins.list", "builtins.dict", "builtins.tuple", "builtins.zip", "builtins.set",
              "builtins.getattr", "builtins.hasattr", "builtins.print", "builtins.min",
              "builtins.max", "builtins.super", "builtins.setattr", "builtins.id", "builtins.str",
              "builtins.sorted", "builtins.int", "builtins.float", "builtins.bool",
              "warnings.warn", "torch.no_grad", "tqdm.tqdm", "functools.partial", "builtins.type",
              "builtins.reversed", "builtins.callable", "builtins.any", "builtins.all",
              "torch.enable_grad", "logging.getLogger", "functools.wraps", "builtins.iter"}


class Dead(Exception):
    """No normal continuation (all paths raised)."""


class State:
    __slots__ = ("frames", "heap", "must", "pc", "held", "ctx", "why", "undef", "track", "flags")

    def __init__(self):
        self.track = True            # follow under which facts variables are unassigned
        self.why = None              # event that raised (exceptional states)
        self.undef = {}              # variable -> fact sets under which it is still unassigned
        self.frames, self.heap = {}, {}
        self.must, self.pc, self.held = frozenset(), frozenset(), frozenset()
        self.ctx = frozenset()
        self.flags = frozenset()     # ((frame, variable), test, outcome, key): key is not held if the test has this outcome

    def copy(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.must, s.pc, s.held, s.ctx = self.must, self.pc, self.held, self.ctx
        s.why, s.track, s.flags = self.why, self.track, self.flags
        s.undef = dict(self.undef)
        return s


def fact_sets(sets, cap=8):
    out = []
    for x in sorted(set(sets), key=len):
        if not any(y <= x for y in out):
            out.append(x)
    return frozenset(out[:cap])


def undef_sets(s, key, v):
    """Fact sets under which ``key`` is unassigned in state ``s``."""
    known = s.undef.get(key)
    if known is not None:
        return [x | s.pc for x in known]
    if v is UNDEF or (v.op == "phi" and UNDEF in v.args):
        return [s.pc]
    return []


def flag_value(v, test):
    """Outcome of a test of a flag variable with this value, if known: 't' for truth, 'n' for ``is None``."""
    if v.op == "const":
        return bool(v.args[0]) if test == "t" else v.args[0] is None
    if v.op == "exc" or v.op == "obj" and test == "n":
        return test == "t"
    return None


def join_flags(states):
    """What values of flag variables say about the keys held, in all of these states."""
    cand = frozenset().union(*[s.flags for s in states])
    held = {s.held for s in states}
    if len(held) > 1:
        diff = frozenset().union(*held) - frozenset.intersection(*held)
        for s in states:
            free = diff - s.held
            for fid, d in s.frames.items() if free else ():
                for n, v in d.items():
                    for test in "tn":
                        x = flag_value(v, test)
                        if x is not None:
                            cand |= {((fid, n), test, x, k) for k in free}
            for c in s.flags:
                if c[3] is NEVER:
                    cand |= {(*c[:3], k) for k in diff & s.held}
    if not cand:
        return cand

    def says(s, c):
        return c in s.flags or c[3] not in s.held and c[3] is not NEVER or excluded(s, *c[:3])
    return frozenset(c for c in cand if all(says(s, c) for s in states))


NEVER = "never"      # stands for a key that is always held: the test cannot have this outcome


def excluded(s, key, test, outcome):
    """The test of a variable cannot have this outcome in the state."""
    if (key, test, outcome, NEVER) in s.flags:
        return True
    v = s.frames.get(key[0], {}).get(key[1])
    x = flag_value(v, test) if v is not None else None
    if x is None and v is not None:
        t = v if test == "t" else mk("cmp", "is", v, NONE)
        x = True if (t, True) in s.pc else False if (t, False) in s.pc else None
    return x is not None and x != outcome


def join(states):
    states = [s for s in states if s is not None]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    out = State()
    track = out.track = states[0].track
    out.must = frozenset.intersection(*[s.must for s in states])
    out.pc = frozenset.intersection(*[s.pc for s in states])
    out.held = frozenset.union(*[s.held for s in states])
    out.ctx = frozenset.intersection(*[s.ctx for s in states])
    if not track:
        out.flags = join_flags(states)
    out.why = next((s.why for s in states if s.why is not None), None)
    fids = set()
    for s in states:
        fids |= s.frames.keys()
    for f in fids:
        ds = [s.frames[f] for s in states if f in s.frames]
        if not track and all(d == ds[0] for d in ds):
            out.frames[f] = dict(ds[0])
            continue
        names = set()
        for d in ds:
            names |= d.keys()
        out.frames[f] = {n: joinv([d.get(n, UNDEF) for d in ds]) for n in names}
        for n in names if track else ():
            key = (f, n)
            vals = [(s, s.frames[f].get(n, UNDEF)) for s in states if f in s.frames]
            if any(key in s.undef or v is UNDEF or v.op == "phi" and UNDEF in v.args for s, v in vals):
                sets = [x for s, v in vals for x in undef_sets(s, key, v)]
                if sets:
                    out.undef[key] = fact_sets(sets)
    uids = set()
    for s in states:
        uids |= s.heap.keys()
    for u in uids:
        ds = [s.heap[u] for s in states if u in s.heap]
        if not track and all(d == ds[0] for d in ds):
            out.heap[u] = dict(ds[0])
            continue
        names = set()
        for d in ds:
            names |= d.keys()
        o = {}
        for n in names:
            if n == "items":
                v = {d.get(n) for d in ds}
                o[n] = v.pop() if len(v) == 1 else None
            elif n in ("*", "k*", "v*"):
                vs = [d[n] for d in ds if n in d]
                o[n] = joinv(vs)
            else:
                o[n] = joinv([d.get(n, UNDEF) for d in ds])
                if not track:
                    continue
                key = ("h", u, n)
                vals = [(s, s.heap[u].get(n, UNDEF)) for s in states if u in s.heap]
                if any(key in s.undef or v is UNDEF for s, v in vals):
                    sets = [x for s, v in vals for x in undef_sets(s, key, v)]
                    if sets:
                        out.undef[key] = fact_sets(sets)
        out.heap[u] = o
    return out


MAXPHI = 14


def joinv(vs):
    t = phi(vs)
    if t.op == "phi" and len(t.args) > MAXPHI:
        return mk("mix", *t.args[:MAXPHI])
    return t


class FuncVal:
    def __init__(self, info, node, chain, module, cls, self_term=None, defaults=None):
        self.info, self.node, self.chain, self.module, self.cls = info, node, chain, module, cls
        self.self_term = self_term
        self.defaults = defaults or {}


class Frame:
    __slots__ = ("fid", "info", "module", "cls", "chain", "self_term", "locals", "nonlocals",
                 "globals_", "yield_cb", "ret", "caller", "node", "callnode")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))


class Event:
    __slots__ = ("kind", "node", "frame", "pc", "loops", "must", "held", "ctx", "seq", "d", "stack")

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n) from None

    @property
    def loc(self):
        return f"{self.frame.module.rel}:{getattr(self.node, 'lineno', '?')}"

    @property
    def fn(self):
        return self.frame.info.qual if self.frame.info else "<lambda>"

    def __repr__(self):
        return f"<{self.kind} {self.loc} {self.d}>"


class Out:
    __slots__ = ("next", "brk", "cont", "ret", "exc")

    def __init__(self, nxt=None):
        self.next, self.brk, self.cont, self.ret, self.exc = nxt, [], [], [], []

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.exc += o.exc


_locals_cache = {}


def local_names(fnode):
    k = id(fnode)
    if k in _locals_cache:
        return _locals_cache[k][1]
    names, nonloc = set(), set()
    if isinstance(fnode, ast.Lambda):
        pass
    else:
        todo = list(fnode.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add(a.asname or a.name.split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Nonlocal, ast.Global)):
                nonloc |= set(n.names)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension targets are local to the comprehension
                pass
            todo.extend(ast.iter_child_nodes(n))
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    res = (names - nonloc, nonloc)
    _locals_cache[k] = (fnode, res)
    return res


def is_generator(fnode):
    todo = list(fnode.body) if not isinstance(fnode, ast.Lambda) else []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(n))
    return False


class Config:
    """Partition of entry assumptions + abstraction boundary."""

    def __init__(self, opaque=(), types=None, nonnull=None, truth=None, kind=None, max_depth=14,
                 track_exc=False, zero_iter=False, opaque_mod=(), resource=None, raises=None, cm_exit=None, empty=None, subst=None,
                 feasible=None, enter_vmap=False, learn=None, err=None, catches=None, loads=False, model=None, flat=False, local_classes=False, tables=False):
        self.tables = tables           # evaluate module-level tables and look constant keys up in them
        self.local_classes = local_classes   # analyse classes defined in functions
        self.flat = flat               # containers and instances told apart only by where they are made
        self.learn = learn             # f(interp, condition, outcome) -> keys not held once the condition has this outcome
        self.err = err                 # f(interp, event) -> keys held in the state in which this call has failed
        self.catches = catches         # f(handler type, state) -> does the handler catch what was raised in this state?
        self.model = model             # f(interp, receiver, method, result) -> assumed result of a method call
        self.loads = loads             # events for reads of instance attributes
        self.enter_vmap = enter_vmap   # analyse functions mapped by vmap on one row
        self.feasible = feasible       # f(interp, facts) -> can these facts hold together? (None: unknown)
        self.subst = subst or {}       # attribute term -> assumed value
        self.opaque = set(opaque)
        self.opaque_mod = tuple(opaque_mod)
        self.types = types or {}       # term -> ClassInfo (typed, opaque receiver)
        self.nonnull = nonnull or (lambda t: None)   # term -> True (not None)/False/None
        self.truth = truth or (lambda t: None)
        self.kind = kind or (lambda t: None)         # term -> 'tuple'|'list'|'dict'|...
        self.max_depth = max_depth
        self.track_exc = track_exc
        self.zero_iter = zero_iter
        self.resource = resource       # f(interp, event) -> (acquired keys, released keys)
        self.empty = empty             # f(interp, condition) -> keys not held where the condition is false
        self.raises = raises           # f(interp, event) -> may this call raise?
        self.cm_exit = cm_exit         # f(interp, context manager term) -> keys released on exit


class Interp:
    def __init__(self, repo, cfg=None):
        self.repo = repo
        self.local_cls = {}
        self.cfg = cfg or Config()
        self.S = State()
        self.S.track = cfg.feasible is not None
        self.events = []
        self.mute = 0
        self.seq = 0
        self.loops = []
        self.stack = []          # frames
        self.loopinfo = {}
        self.lvinfo = {}
        self.funcs = {}
        self.objs = {}           # uid -> dict(kind, cls, node, ...)
        self.contents = {}       # uid -> list of (how, term)
        self._ids = {}
        self.exc_frames = [[]]
        self.call_nodes = 0
        self.inlined = set()
        self.unresolved = {}
        self.generators = {}
        self.modframes = {}      # module name -> frame id of its top-level names

    # ------------------------------------------------------------ utils
    def iid(self, *key):
        v = self._ids.get(key)
        if v is None:
            v = self._ids[key] = len(self._ids) + 1
        return v

    def nid(self, node, depth=-1):
        return (self.stack[depth].module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                type(node).__name__, getattr(node, "end_col_offset", 0), getattr(node, "end_lineno", 0))

    @property
    def fr(self):
        return self.stack[-1]

    def ev(self, kind, node, **d):
        e = Event()
        e.kind, e.node, e.frame = kind, node, self.stack[-1] if self.stack else None
        e.pc, e.must, e.held, e.ctx = self.S.pc, self.S.must, self.S.held, self.S.ctx
        e.loops = tuple(self.loops)
        e.stack = tuple(self.stack)
        e.d = d
        self.seq += 1
        e.seq = self.seq
        if not self.mute:
            self.events.append(e)
        self.last_ev = e
        if self.cfg.resource:
            acq, rel = self.cfg.resource(self, e)
            if acq or rel:
                self.acquire(self.S, acq, rel)
        return e

    @staticmethod
    def acquire(s, acq, rel):
        s.held = (s.held - frozenset(rel)) | frozenset(acq)
        if acq and s.flags:
            s.flags = frozenset(c for c in s.flags if c[3] not in acq)

    def new_obj(self, kind, node, cls=None, extra=None):
        flat = self.cfg.flat and kind in ("list", "dict", "set", "inst")
        uid = self.iid("obj", self.fr.fid if self.stack and not flat else 0, self.nid(node) if self.stack else id(node), kind, extra)
        self.objs.setdefault(uid, {"kind": kind, "cls": cls, "node": node, "loops": tuple(self.loops),
                                   "loc": f"{self.fr.module.rel}:{getattr(node, 'lineno', '?')}" if self.stack else ""})
        self.S.heap[uid] = {}
        return mk("obj", uid)

    def sym_instance(self, cls, label):
        """A symbolic instance of a repository class (attributes are unknown symbols)."""
        uid = self.iid("syminst", label)
        self.objs[uid] = {"kind": "inst", "cls": cls, "node": cls.node, "label": label, "symbolic": True,
                          "loc": cls.module.rel}
        self.S.heap.setdefault(uid, {})
        return mk("obj", uid)

    def add_content(self, t, how, v):
        if t.op == "obj":
            lst = self.contents.setdefault(t.args[0], [])
            if (how, v) not in lst:
                lst.append((how, v))

    # ------------------------------------------------------------ conditions
    def canon(self, t):
        """-> (positive term, polarity)"""
        pol = True
        while True:
            if t.op == "not":
                t, pol = t.args[0], not pol
            elif t.op == "cmp" and t.args[0] in ("is not", "!=", "not in"):
                inv = {"is not": "is", "!=": "==", "not in": "in"}[t.args[0]]
                t, pol = mk("cmp", inv, t.args[1], t.args[2]), not pol
            elif t.op == "cmp" and t.args[0] == "<=":
                t, pol = mk("cmp", "<", t.args[2], t.args[1]), not pol
            else:
                return t, pol

    def truth(self, t):
        """Abstract truth value of a term: True / False / None (unknown)."""
        o = self.cfg.truth(t)
        if o is not None:
            return o
        c, pol = self.canon(t)
        if not (self.cfg.flat and self.volatile(c)):
            if (c, True) in self.S.pc:
                return pol
            if (c, False) in self.S.pc:
                return not pol
        r = self._truth(c)
        return None if r is None else (r if pol else not r)

    def volatile(self, t):
        """The condition depends on the present contents of an object."""
        todo = [t]
        while todo:
            x = todo.pop()
            if x.op == "obj" and self.objs[x.args[0]]["kind"] in ("list", "dict", "set") or x.op == "call" and x.args[0].op == "attr":
                return True
            if x.op in ("cmp", "not", "and", "or", "dim", "bin", "call"):
                for y in x.args:
                    if isinstance(y, T):
                        todo.append(y)
                    elif isinstance(y, tuple):
                        todo.extend(z for z in y if isinstance(z, T))
        return False

    def _truth(self, t):
        if t.op == "const":
            return bool(t.args[0])
        if t.op in ("func", "class", "bound", "mod"):
            return True
        if t.op == "phi":
            vs = {self.truth(x) for x in t.args}
            return vs.pop() if len(vs) == 1 else None
        if t.op == "obj":
            ob = self.objs[t.args[0]]
            if ob["kind"] == "inst":
                return True
            h = self.S.heap.get(t.args[0], {})
            if h.get("items"):
                return True
            if self.cfg.flat and self.contents.get(t.args[0]):
                return None        # an object of the same allocation site may have been filled elsewhere
            if ob["kind"] in ("list", "dict", "set") and not self.loops:
                if "*" not in h and h.get("items") == () and not any(
                        isinstance(k, tuple) or k == "v*" for k in h):
                    return False
            return None
        if t.op == "tuple":
            return bool(t.args)
        if t.op == "and":
            vs = [self.truth(x) for x in t.args]
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if t.op == "or":
            vs = [self.truth(x) for x in t.args]
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        if t.op == "cmp":
            op, l, r = t.args
            if op == "is":
                a, b = (l, r) if r is NONE else ((r, l) if l is NONE else (None, None))
                if b is NONE:
                    return self.is_none(a)
                if l is r and l.op == "const":
                    return True
                if l.op == "const" and r.op == "const":
                    return l.args[0] is r.args[0]
                return None
            if op == "==":
                if l.op == "const" and r.op == "const":
                    return l.args[0] == r.args[0]
                if l is r and l.op not in ("phi", "mix"):
                    return True
                for a, b in ((l, r), (r, l)):
                    if a is NONE and self.is_none(b) is False:
                        return False
                return None
            if op == "in":
                if l.op == "const" and r.op in ("tuple",) and all(x.op == "const" for x in r.args):
                    return any(x.args[0] == l.args[0] for x in r.args)
                if l.op == "const" and r.op == "obj":
                    it = self.S.heap.get(r.args[0], {}).get("items")
                    if it is not None and all(x.op == "const" for x in it):
                        return any(x.args[0] == l.args[0] for x in it)
                if l.op == "const" and self.cfg.tables and self.exact_keys(r) is not None:
                    return l.args[0] in self.exact_keys(r)
                return None
            if op == "<":
                if l.op == "const" and r.op == "const":
                    try:
                        return l.args[0] < r.args[0]
                    except TypeError:
                        return None
            return None
        if t.op == "isinstance":
            return self.isinst(t.args[0], t.args[1])
        return None

    def is_none(self, t):
        if t is NONE:
            return True
        o = self.cfg.nonnull(t)
        if o is not None:
            return not o
        if t.op == "phi":
            vs = {self.is_none(x) for x in t.args}
            return vs.pop() if len(vs) == 1 else None
        if t.op in ("obj", "func", "class", "bound", "mod", "tuple", "const", "fstr", "bin", "matmul", "partial",
                    "T", "dim", "ind", "idx", "cmp", "not", "isinstance", "ext"):
            return False
        if t.op == "call" and t.args[3] is not None:
            return False
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].startswith("torch."):
            return False
        return None

    KINDCLS = {"tuple": {"tuple"}, "list": {"list"}, "dict": {"dict"}, "str": {"str"}, "set": {"set"}}

    def kind_of(self, t):
        k = self.cfg.kind(t)
        if k:
            return k
        if t.op == "obj":
            ob = self.objs[t.args[0]]
            return ob["kind"] if ob["kind"] != "inst" else None
        if t.op == "tuple":
            return "tuple"
        if t.op == "const":
            return type(t.args[0]).__name__
        if t.op == "fstr":
            return "str"
        if t.op == "call" and t.args[0].op == "ext" and (
                t.args[0].args[0] in ALLOCS or t.args[3] is not None):
            return "tensor"
        return None

    def isinst(self, v, cls):
        if v.op == "phi":
            vs = {self.isinst(x, cls) for x in v.args}
            return vs.pop() if len(vs) == 1 else None
        names = set()
        for c in (cls.args if cls.op == "tuple" else alts(cls)):
            for d in (c.args if c.op == "bin" and c.args[0] == "|" else [c]):
                if isinstance(d, T):
                    names.add(d.args[0].split(".")[-1] if d.op in ("ext", "class") else "?")
        k = self.kind_of(v)
        if k is not None:
            if k in names:
                return True
            if "?" in names:
                return None
            if k == "tensor":
                return True if "Tensor" in names else (False if names <= {"tuple", "list", "dict", "str", "int", "float"} else None)
            if names <= {"tuple", "list", "dict", "str", "int", "float", "set", "bool", "Tensor", "PosixPath", "Path"}:
                if k == "bool" and "int" in names:
                    return True
                return False
            return None
        if v.op == "obj":
            ci = self.objs[v.args[0]].get("cls")
            if ci is not None:
                if any(c.name in names for c in ci.mro(self.repo)):
                    return True
                return None
        if v is NONE:
            return False
        return None

    def assume(self, t, val):
        """Refine the current state with t == val; raises Dead when contradictory."""
        c, pol = self.canon(t)
        if not pol:
            val = not val
        if c.op == "and" and val:
            for x in c.args:
                self.assume(x, True)
            return
        if c.op == "or" and not val:
            for x in c.args:
                self.assume(x, False)
            return
        if (c, not val) in self.S.pc:
            raise Dead
        self.S.pc = self.S.pc | {(c, val)}

    # ------------------------------------------------------------ names
    def load(self, name, node):
        fr = self.fr
        if name in fr.locals:
            v = self.S.frames[fr.fid].get(name, UNDEF)
            if self.cfg.feasible is not None and v is not UNDEF and (fr.fid, name) in self.S.undef:
                sets = [x | self.S.pc for x in self.S.undef[(fr.fid, name)]]
                self.ev("maybe_unbound", node, name=name, sets=sets)
            if v is UNDEF or (v.op == "phi" and UNDEF in v.args):
                self.ev("unbound", node, name=name, always=v is UNDEF)
                if v.op == "phi":
                    v = phi([x for x in v.args if x is not UNDEF])
                else:
                    v = mk("unk", "unbound:" + name)
            return v
        for fid, locs in fr.chain:
            if name in locs:
                d = self.S.frames.get(fid)
                if d is None:
                    return mk("unk", f"free:{name}")
                v = d.get(name, UNDEF)
                if v is UNDEF:
                    return mk("unk", f"free:{name}")
                if v.op == "phi" and UNDEF in v.args:
                    v = phi([x for x in v.args if x is not UNDEF])
                return v
        return self.load_global(fr.module, name)

    def load_global(self, module, name):
        r = self.repo.resolve(module, name)
        if r is None:
            if name in BUILTINS:
                return ext("builtins." + name)
            return mk("unk", f"global:{module.name}.{name}")
        return self.res_term(r)

    def res_term(self, r):
        k = r[0]
        if k == "func":
            return self.func_term(r[1])
        if k == "class":
            return mk("class", r[1].qual)
        if k == "mod":
            return mk("mod", r[1])
        if k == "ext":
            return ext(r[1])
        if k == "var":
            e = r[2]
            if isinstance(e, ast.Constant):
                return const(e.value)
            rr = self.repo.resolve_expr(r[1], e) if isinstance(e, (ast.Name, ast.Attribute)) else None
            if rr:
                return self.res_term(rr)
            if isinstance(e, (ast.UnaryOp, ast.BinOp, ast.Tuple, ast.List)):
                try:
                    v = ast.literal_eval(e)
                    if isinstance(v, (tuple, list)):
                        return mk("tuple", *[const(x) for x in v]) if not any(isinstance(x, (tuple, list, dict)) for x in v) else mk("unk", "modvar")
                    return const(v)
                except Exception:
                    pass
            for n, b in r[1].names.items():
                if b[0] == "var" and b[1] is e:
                    v = self.S.frames.get(self.modframes.get(r[1].name), {}).get(n, UNDEF)
                    if v is not UNDEF and v.op != "unk":
                        return v
                    return sym(f"global:{r[1].name}.{n}")
            return mk("unk", "modvar")
        return mk("unk", "res")

    def load_tables(self, module):
        """Analyse the assignments made when a module is loaded, so that its tables are known objects."""
        if module.name in self.modframes:
            return
        body = [st for st in module.tree.body if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For)) or
                isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)]
        names = {n.id for st in body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in names:
            b = module.names.get(n)
            if b is not None and b[0] in ("from", "var") and b[0] == "from":
                names = names - {n}
        fid = self.iid("modframe", module.name)
        self.stack.append(Frame(fid=fid, info=None, module=module, cls=None, chain=(), locals=names, nonlocals=set(), node=None))
        self.S.frames[fid] = {}
        try:
            self.block(body)
        finally:
            self.stack.pop()
        self.modframes[module.name] = fid

    def func_term(self, info):
        uid = self.iid("fn", info.qual)
        if uid not in self.funcs:
            self.funcs[uid] = FuncVal(info, info.node, (), info.module, info.cls)
        return mk("func", uid)

    assigned_call = None

    def unflag(self, key, of=None):
        """A variable is assigned, with the result of the call ``of`` if given."""
        self.S.flags = frozenset(c for c in self.S.flags if c[0] != key) | frozenset(
            (key, *c[1:]) for c in self.S.flags if of is not None and c[0] == of)

    def flag_key(self, node):
        """Key of a variable or call whose value may say which keys are held."""
        if isinstance(node, ast.Name):
            fr = self.fr
            if node.id in fr.nonlocals:
                return next(((fid, node.id) for fid, locs in fr.chain if node.id in locs), (fr.fid, node.id))
            return fr.fid, node.id
        if isinstance(node, ast.Call):
            return self.fr.fid, self.nid(node)
        return None

    def flag_learn(self, s, test, val):
        """Keys no longer held in a state where an ``if`` or ``while`` test has this outcome."""
        if s is None or not s.flags:
            return
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.flag_learn(s, test.operand, not val)
        if isinstance(test, ast.NamedExpr):
            return self.flag_learn(s, test.target, val)
        if isinstance(test, ast.BoolOp):
            if val == isinstance(test.op, ast.And):
                for x in test.values:
                    self.flag_learn(s, x, val)
            return
        key, kind, val = self.flag_test(test, val)
        s.held = s.held - frozenset(c[3] for c in s.flags if c[:3] == (key, kind, val))

    def flag_test(self, test, val):
        """(variable, kind of test, outcome) of a test having the outcome ``val``."""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, val = test.operand, not val
        kind = "t"
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant):
            op, c = test.ops[0], test.comparators[0].value
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                val = not val
            elif not isinstance(op, (ast.Is, ast.Eq)):
                return None, kind, val
            if c is None:
                kind = "n"
            elif c is False:
                val = not val
            elif c is not True:
                return None, kind, val
            test = test.left
        return self.flag_key(test), kind, val

    def store_name(self, name, v):
        fr = self.fr
        if self.S.flags:
            self.unflag(self.flag_key(ast.Name(id=name)), self.assigned_call)
        if name in fr.locals or not fr.chain:
            self.S.frames[fr.fid][name] = v
            self.S.undef.pop((fr.fid, name), None)
            return
        if name in fr.nonlocals:
            for fid, locs in fr.chain:
                if name in locs and fid in self.S.frames:
                    self.S.frames[fid][name] = v
                    self.S.undef.pop((fid, name), None)
                    return
        self.S.frames[fr.fid][name] = v

    # ------------------------------------------------------------ function calls
    def bind(self, fv, args, kwargs, has_self):
        a = fv.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound, extra_pos, extra_kw, problems = {}, [], {}, []
        star = [x for x in args if x.op == "star"]
        plain = list(args)
        i = 0
        for x in plain:
            if x.op == "star":
                inner = x.args[0]
                items = self.exact_items(inner)
                if items is not None:
                    for y in items:
                        if i < len(pos):
                            bound[pos[i]] = y
                        else:
                            extra_pos.append(y)
                        i += 1
                else:
                    # unknown spread: fill the remaining positionals with elements
                    if a.vararg is None or i < len(pos):
                        k = 0
                        while i < len(pos):
                            bound[pos[i]] = sub(inner, const(k))
                            i += 1
                            k += 1
                    if a.vararg:
                        extra_pos.append(x)
                continue
            if i < len(pos):
                bound[pos[i]] = x
            elif a.vararg:
                extra_pos.append(x)
            else:
                problems.append("too many positional arguments")
            i += 1
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs:
            if k == "**":
                items = self.dict_items(v)
                if items is not None:
                    for kk, vv in items.items():
                        if kk in names:
                            if kk in bound and UNDEF not in alts(vv):
                                problems.append(f"multiple values for {kk}")
                            bound.setdefault(kk, vv)
                        else:
                            extra_kw[kk] = vv
                            if not a.kwarg and UNDEF not in alts(vv):
                                problems.append(f"unexpected keyword {kk}")
                else:
                    extra_kw["**"] = v
            elif k in names:
                if k in bound:
                    problems.append(f"multiple values for {k}")
                bound[k] = v
            elif a.kwarg:
                extra_kw[k] = v
            else:
                problems.append(f"unexpected keyword {k}")
        return bound, extra_pos, extra_kw, problems

    def exact_items(self, t):
        if t.op == "tuple":
            return list(t.args)
        if t.op == "obj":
            h = self.S.heap.get(t.args[0], {})
            it = h.get("items")
            if it is not None and self.objs[t.args[0]]["kind"] in ("list", "tuple"):
                return list(it)
        return None

    def dict_items(self, t):
        if t.op == "obj" and self.objs[t.args[0]]["kind"] == "dict":
            h = self.S.heap.get(t.args[0], {})
            if "v*" in h:
                return None
            out = {}
            for k, v in h.items():
                if isinstance(k, tuple) and k[0] == "k" and isinstance(k[1], str):
                    out[k[1]] = v
            return out
        return None

    def defaults(self, fv, names):
        a = fv.node.args
        out = {}
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[x.arg] = d
        res = {}
        for n in names:
            if n in fv.defaults:
                res[n] = fv.defaults[n]
            elif n in out:
                res[n] = self.const_eval(out[n], fv.module)
        return res

    def const_eval(self, e, module):
        if isinstance(e, ast.Constant):
            return const(e.value)
        try:
            v = ast.literal_eval(e)
            if isinstance(v, tuple):
                return mk("tuple", *[const(x) for x in v])
            if isinstance(v, (int, float, str)):
                return const(v)
        except Exception:
            pass
        r = self.repo.resolve_expr(module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if r:
            return self.res_term(r)
        return mk("unk", "default:" + ast.unparse(e))

    def is_opaque(self, info):
        if info is None:
            return False
        q = info.qual
        if q in self.cfg.opaque or any(q.startswith(p) for p in self.cfg.opaque_mod):
            return True
        return False

    def call_func(self, fterm, fv, args, kwargs, node, self_term=None, yield_cb=None):
        info = fv.info
        st = self_term if self_term is not None else fv.self_term
        if st is not None:
            args = (st,) + tuple(args)
        bound, xpos, xkw, problems = self.bind(fv, args, kwargs, st is not None)
        a = fv.node.args
        allp = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        missing = [p for p in allp if p not in bound]
        opt = [p for p, v in bound.items() if v.op == "phi" and UNDEF in v.args] if kwargs else []
        dfl = self.defaults(fv, missing + opt)
        for p in opt:      # passed by a spread dict in some cases only
            bound[p] = phi([x for x in bound[p].args if x is not UNDEF] + ([dfl[p]] if p in dfl else []))
        for p in missing:
            if p in dfl:
                bound[p] = dfl[p]
            elif "**" in xkw:
                bound[p] = mk("sub", xkw["**"], const(p))
            else:
                problems.append(f"missing argument {p}")
                bound[p] = mk("unk", f"missing:{p}")
        qual = info.qual if info else "<lambda>"
        e = self.ev("call", node, callee=qual, bound=dict(bound), args=tuple(args), kwargs=tuple(kwargs),
                    recv=st, result=None, defaulted=frozenset(p for p in missing if p in dfl), extra=xkw,
                    xpos=tuple(xpos))
        if problems:
            self.ev("badcall", node, callee=qual, problems=tuple(problems))
        depth = sum(1 for f in self.stack if f.node is fv.node)
        if self.is_opaque(info) or depth >= 2 or len(self.stack) > self.cfg.max_depth or (
                info is not None and info.is_abstract):
            kw = tuple(sorted([(k, v) for k, v in bound.items()] + [(k, v) for k, v in xkw.items()],
                              key=lambda kv: kv[0]))
            r = mk("call", ext(qual), tuple(xpos), kw, None)
            e.d["result"] = r
            self.may_raise(node)
            return r
        if yield_cb is None and is_generator(fv.node) and not (info and info.is_ctxmanager):
            g = self.new_obj("gen", node, extra=("gen", qual))
            self.generators[g.args[0]] = (fterm, fv, bound, xpos, xkw)
            e.d["result"] = g
            return g
        r = self.run(fv, bound, xpos, xkw, node, yield_cb)
        e.d["result"] = r
        return r

    def run(self, fv, bound, xpos, xkw, node, yield_cb=None):
        info = fv.info
        caller = self.stack[-1].fid if self.stack else 0
        fid = self.iid("frame", caller, self.nid(node) if self.stack else "entry",
                       id(fv.node), tuple(fv.chain and [c[0] for c in fv.chain] or ()))
        locs, nonl = local_names(fv.node)
        fr = Frame(fid=fid, info=info, module=fv.module, cls=fv.cls, chain=fv.chain,
                   self_term=None, locals=locs, nonlocals=nonl, yield_cb=yield_cb, caller=caller,
                   node=fv.node, callnode=node)
        d = dict(bound)
        a = fv.node.args
        if a.vararg:
            if xpos and xpos[-1].op == "star" and len(xpos) == 1:
                d[a.vararg.arg] = xpos[0].args[0]
            else:
                d[a.vararg.arg] = mk("tuple", *xpos)
        self.S.frames[fid] = d
        self.stack.append(fr)
        if info is not None:
            self.inlined.add(info.qual)
        try:
            if a.kwarg:
                ko = self.new_obj("dict", fv.node, extra="kwargs")
                for k, v in xkw.items():
                    if k == "**":
                        self.S.heap[ko.args[0]]["v*"] = mk("val", v)
                        self.add_content(ko, "spread", v)
                    else:
                        self.S.heap[ko.args[0]][("k", k)] = v
                        self.add_content(ko, "val", v)
                d[a.kwarg.arg] = ko
                self.S.frames[fid][a.kwarg.arg] = ko
            if isinstance(fv.node, ast.Lambda):
                return self.eval(fv.node.body)
            out = self.block(fv.node.body)
            rets = list(out.ret)
            if out.next is not None:
                rets.append((out.next, NONE))
            for st, _ in out.exc:
                self.exc_frames[-1].append(st)
            if not rets:
                raise Dead
            if self.cfg.flat:
                for s, v in rets:
                    s.frames.setdefault(fid, {})["<return>"] = v
            self.S = join([s for s, _ in rets])
            if self.S.flags and len(self.stack) > 1:
                self.unflag((caller, self.nid(node, -2)), (fid, "<return>"))
            return joinv([v for _, v in rets])
        finally:
            self.stack.pop()
            if not _has_inner(fv.node):
                self.S.frames.pop(fid, None)
            if self.S.flags:
                self.S.flags = frozenset(c for c in self.S.flags if c[0][0] != fid)

    def may_raise(self, node):
        if self.cfg.track_exc and (len(self.exc_frames) > 1 or self.S.held or self.cfg.err):
            if self.cfg.raises and not self.cfg.raises(self, self.last_ev):
                return
            s = self.S.copy()
            s.why = self.last_ev
            if self.cfg.err:
                acq, rel = self.cfg.err(self, self.last_ev)
                self.acquire(s, acq, rel)
            self.exc_frames[-1].append(s)

    def instantiate(self, ci, args, kwargs, node):
        eb = ci.ext_bases(self.repo)
        o = self.new_obj("inst", node, cls=ci, extra=ci.qual)
        self.objs[o.args[0]]["cls"] = ci
        init = ci.find(self.repo, "__init__")
        pyd = any(b.split(".")[-1] in ("BaseModel",) for b in eb)
        if ci.qual in self.cfg.opaque or pyd or any(ci.qual.startswith(p) for p in self.cfg.opaque_mod):
            e = self.ev("call", node, callee=ci.qual, args=tuple(args), kwargs=tuple(kwargs), recv=None,
                        result=None, bound=dict(kwargs), cls=ci)
            r = mk("call", mk("class", ci.qual), tuple(args), tuple(sorted(kwargs, key=lambda kv: (kv[0], kv[1].id))), None)
            e.d["result"] = r
            self.may_raise(node)
            return r
        self.ev("new", node, cls=ci.qual, obj=o, args=tuple(args), kwargs=tuple(kwargs))
        if any(b.split(".")[-1] in ("NamedTuple",) for b in eb) or any(
                d.split(".")[-1] == "dataclass" for d in [ast.unparse(x.func if isinstance(x, ast.Call) else x) for x in ci.node.decorator_list]):
            fields = [s.target.id for s in ci.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            for f, v in zip(fields, args):
                self.S.heap[o.args[0]][f] = v
            for k, v in kwargs:
                self.S.heap[o.args[0]][k] = v
            for s in ci.node.body:
                if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                    if s.target.id not in self.S.heap[o.args[0]]:
                        self.S.heap[o.args[0]][s.target.id] = self.const_eval(s.value, ci.module)
            return o
        if init is not None:
            self.call_func(self.func_term(init), self.funcs[self.iid("fn", init.qual)], args, kwargs, node, self_term=o)
        return o

    # ------------------------------------------------------------ entry
    def enter(self, info, bound, self_term=None, node=None):
        """Analyse ``info`` as an entry point with the given parameter terms."""
        ft = self.func_term(info)
        fv = self.funcs[self.iid("fn", info.qual)]
        a = info.node.args
        allp = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        b = dict(bound)
        if self_term is not None and not info.is_static:
            b[allp[0]] = self_term
        for p in allp:
            if p not in b:
                b[p] = sym("param:" + p)
        xkw, xpos = {}, []
        if a.vararg:
            xpos = [mk("star", sym("param:*" + a.vararg.arg))]
        if a.kwarg:
            xkw = {"**": sym("param:**" + a.kwarg.arg)}
        for p in list(b):
            if p not in allp:
                xkw[p] = b.pop(p)
        # materialise a pseudo frame so node ids are well defined
        return self.run(fv, b, xpos, xkw, info.node)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        out = Out(self.S)
        for st in stmts:
            if out.next is None:
                break
            self.S = out.next
            try:
                o = self.stmt(st)
            except Dead:
                o = Out(None)
            out.next = o.next
            out.absorb(o)
        if out.next is not None:
            self.S = out.next
        return out

    def stmt(self, st):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            for n in ast.iter_child_nodes(st):
                if isinstance(n, ast.expr):
                    self.eval(n)
            return Out(self.S)
        return m(st)

    def s_Expr(self, st):
        self.eval(st.value)
        return Out(self.S)

    def s_Pass(self, st):
        return Out(self.S)

    def s_Assign(self, st):
        v = self.eval(st.value)
        self.assigned_call = self.flag_key(st.value) if isinstance(st.value, ast.Call) and self.S.flags else None
        for t in st.targets:
            self.assign(t, v, st)
        self.assigned_call = None
        return Out(self.S)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value), st)
        return Out(self.S)

    def s_AugAssign(self, st):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, t)
            v = self.eval(st.value)
            self.ev("aug", st, target=("name", t.id), cur=cur, op=op, value=v)
            if is_alloc(cur):
                self.ev("inplace", st, base=cur, op=op, value=v)
                return Out(self.S)
            if cur.op == "obj" and op == "+":
                self.add_content(cur, "extend", v)
                self._weak_add(cur, self.content_of(v))
                self.S.heap.get(cur.args[0], {})["items"] = None
                return Out(self.S)
            self.store_name(t.id, self.binop(op, cur, v))
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            cur = self.getattr(b, t.attr, t)
            v = self.eval(st.value)
            self.ev("aug", st, target=("attr", b, t.attr), cur=cur, op=op, value=v)
            if is_alloc(cur):
                self.ev("inplace", st, base=cur, op=op, value=v)
                return Out(self.S)
            self.setattr(b, t.attr, self.binop(op, cur, v), st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            i = self.eval(t.slice)
            cur = self.subscript(b, i, t)
            v = self.eval(st.value)
            self.ev("substore", st, base=b, index=i, value=v, op=op, cur=cur, name=_nm(t.value))
            self.set_sub(b, i, self.binop(op, cur, v), st, quiet=True)
        return Out(self.S)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            items = self.exact_items(v)
            starred = any(isinstance(e, ast.Starred) for e in t.elts)
            for x in alts(v) if not starred else ():
                got = items if x is v else self.exact_items(x)
                if got is not None and len(got) != n:
                    self.ev("badunpack", node, value=x, want=n, got=len(got))
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("rest", v, const(k)), node)
                elif items is not None and len(items) == n and not starred:
                    self.assign(e, items[k], node)
                else:
                    self.assign(e, self.subscript(v, const(k), node, quiet=True), node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            self.ev("setattr", node, base=b, attr=t.attr, value=v)
            self.setattr(b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            i = self.eval(t.slice)
            self.ev("substore", node, base=b, index=i, value=v, op=None, cur=None, name=_nm(t.value))
            self.set_sub(b, i, v, node, quiet=True)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def s_Return(self, st):
        v = self.eval(st.value) if st.value is not None else NONE
        self.ev("return", st, value=v)
        o = Out(None)
        o.ret.append((self.S, v))
        return o

    def s_Raise(self, st):
        v = self.eval(st.exc) if st.exc is not None else mk("unk", "reraise")
        self.ev("raise", st, exc=v)
        o = Out(None)
        o.exc.append((self.S, v))
        return o

    def s_Assert(self, st):
        c = self.eval(st.test)
        try:
            self.assume(c, True)
        except Dead:
            return Out(None)
        return Out(self.S)

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.ev("del", st, base=None, key=t.id, value=self.S.frames[self.fr.fid].get(t.id, UNDEF))
                self.S.frames[self.fr.fid][t.id] = UNDEF
                self.S.undef.pop((self.fr.fid, t.id), None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                self.ev("delattr", st, base=b, attr=t.attr)
                if b.op == "obj":
                    self.S.heap.get(b.args[0], {}).pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                i = self.eval(t.slice)
                self.ev("delitem", st, base=b, index=i)
        return Out(self.S)

    def s_Global(self, st):
        return Out(self.S)

    s_Nonlocal = s_Global

    def s_Import(self, st):
        for k, b in import_bindings(st, self.fr.module).items():
            r = self.repo.resolve_binding(b, self.fr.module)
            self.store_name(k, self.res_term(r) if r else ext(b[1]))
        return Out(self.S)

    s_ImportFrom = s_Import

    def s_FunctionDef(self, st):
        v = self.make_closure(st)
        decs = []
        for d in reversed(st.decorator_list):
            name = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            if name.split(".")[-1] in ("wraps", "no_grad", "inference_mode", "staticmethod", "contextmanager"):
                continue
            dt = self.eval(d)
            v = self.call_term(dt, (v,), (), d)
        self.store_name(st.name, v)
        return Out(self.S)

    def make_closure(self, st):
        fr = self.fr
        uid = self.iid("closure", fr.fid, self.nid(st))
        info = None
        if not isinstance(st, ast.Lambda):
            info = FuncInfo(st.name, st, fr.module)
            info.qual = (fr.info.qual if fr.info else fr.module.name) + ".<locals>." + st.name
        chain = ((fr.fid, fr.locals),) + tuple(fr.chain or ())
        dfl = {}
        a = st.args
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            dfl[x.arg] = self.eval(d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dfl[x.arg] = self.eval(d)
        self.funcs[uid] = FuncVal(info, st, chain, fr.module, fr.cls, defaults=dfl)
        return mk("func", uid)

    def s_ClassDef(self, st):
        if self.cfg.local_classes:
            fr = self.fr
            ci = ClassInfo(st.name, st, fr.module)
            ci.qual = (fr.info.qual if fr.info else fr.module.name) + ".<locals>." + st.name
            for n, f in ci.methods.items():
                f.qual = ci.qual + "." + n
                self.funcs[self.iid("fn", f.qual)] = FuncVal(f, f.node, ((fr.fid, fr.locals),) + tuple(fr.chain or ()), fr.module, ci)
            self.local_cls[ci.qual] = ci
            self.store_name(st.name, mk("class", ci.qual))
            return Out(self.S)
        self.store_name(st.name, mk("unk", "class:" + st.name))
        return Out(self.S)

    def branch(self, ct):
        """Fork on condition term; returns (state_true|None, state_false|None)."""
        tv = self.truth(ct)
        if tv is True:
            return self.S, None
        if tv is False:
            return None, self.S
        base = self.S
        a = base.copy()
        self.S = a
        try:
            self.assume(ct, True)
            a = self.S
        except Dead:
            a = None
        b = base.copy()
        self.S = b
        try:
            self.assume(ct, False)
            b = self.S
            if self.cfg.empty:
                b.held = b.held - frozenset(self.cfg.empty(self, ct))
        except Dead:
            b = None
        if self.cfg.learn:
            for s, v in ((a, True), (b, False)):
                if s is not None:
                    self.S = s
                    s.held = s.held - frozenset(self.cfg.learn(self, ct, v))
        return a, b

    def s_If(self, st):
        ct = self.eval(st.test)
        a, b = self.branch(ct)
        self.flag_learn(a, st.test, True)
        self.flag_learn(b, st.test, False)
        out = Out(None)
        nxt = []
        if a is not None:
            self.S = a
            self.ev("branch", st, cond=ct, val=True)
            o = self.block(st.body)
            nxt.append(o.next)
            out.absorb(o)
        if b is not None:
            self.S = b
            if st.orelse:
                o = self.block(st.orelse)
                nxt.append(o.next)
                out.absorb(o)
            else:
                nxt.append(b)
        nxt = [s for s in nxt if s is not None]
        out.next = join(nxt)
        if len(nxt) > 1 and not out.next.track and self.S.held:
            # outcomes of the test ruled out on both sides, as after ``if x is None: x = ...``
            key, kind, _ = self.flag_test(st.test, True)
            for v in (True, False) if key is not None else ():
                if all(excluded(s, key, kind, v) for s in nxt):
                    out.next.flags |= {(key, kind, v, NEVER)}
        if out.next is not None:
            self.S = out.next
        return out

    # -- loops
    def _diff(self, head, end, skip_fids=()):
        keys = set()
        for f, d in end.frames.items():
            h = head.frames.get(f)
            if h is None:
                continue
            for n, v in d.items():
                if h.get(n, UNDEF) is not v:
                    keys.add(("f", f, n))
        for u, d in end.heap.items():
            h = head.heap.get(u)
            if h is None:
                continue
            for n, v in d.items():
                if h.get(n) is not v:
                    keys.add(("h", u, n))
            for n in h:
                if n not in d:
                    keys.add(("h", u, n))
        return keys

    @staticmethod
    def _get(s, k):
        if k[0] == "f":
            return s.frames.get(k[1], {}).get(k[2], UNDEF)
        return s.heap.get(k[1], {}).get(k[2], UNDEF)

    @staticmethod
    def _set(s, k, v):
        if k[0] == "f":
            s.frames[k[1]][k[2]] = v
        else:
            if k[1] in s.heap:
                s.heap[k[1]][k[2]] = v

    def loop(self, lid, node, body_fn, orelse=None, exits=None):
        """Fixpoint of ``body_fn`` (returns Out; ends of iteration are next+cont)."""
        S0 = self.S.copy()
        head_vals = {}
        head_undef = {}
        feas = self.cfg.feasible
        held0, flags0 = S0.held, S0.flags
        final = None
        for it in range(5):
            s = S0.copy()
            s.held, s.flags = held0, flags0
            for k, v in head_vals.items():
                self._set(s, k, v)
            s.undef.update(head_undef)
            head = s.copy()
            self.S = s
            self.mute += 1
            self.loops.append(lid)
            if self.cfg.track_exc:
                self.exc_frames.append([])
            try:
                o = body_fn()
            finally:
                self.loops.pop()
                self.mute -= 1
                if self.cfg.track_exc:
                    self.exc_frames.pop()
            end = join([x for x in [o.next] + o.cont if x is not None])
            if end is None:
                break
            held0 = held0 | end.held
            stable = True
            if S0.flags or end.flags or S0.held != end.held:
                known = join_flags([S0, end])
                stable = known == flags0
                flags0 = known if it < 4 else frozenset()
            ch = self._diff(head, end)
            for k in ch:
                v0, v1 = self._get(S0, k), self._get(end, k)
                if feas and k[0] == "f":
                    key = (k[1], k[2])
                    first = cmp("==", mk("idx", lid), const(0))
                    sets = [x | {(first, True)} for x in undef_sets(S0, key, v0)]
                    if sets:
                        sets += [frozenset(y for y in x | {(first, False)} if y[0] is first or not _mentions_loop(y[0], lid))
                                 for x in undef_sets(end, key, v1) if feas(self, x) is not False]
                        head_undef[key] = fact_sets(sets)
                lv = mk("lv", lid, k[0], k[1], k[2])
                if k[2] == "items" and k[0] == "h":
                    if head_vals.get(k, 0) is not None or k not in head_vals:
                        head_vals[k] = None
                        stable = False
                    continue
                if k not in head_vals:
                    stable = False
                    if k[0] == "h" and k[2] in ("*", "k*", "v*"):
                        head_vals[k] = joinv([x for x in (v0, v1) if x is not UNDEF])
                    else:
                        head_vals[k] = lv
                else:
                    cur = head_vals[k]
                    if cur is lv:
                        pass
                    elif k[0] == "h" and k[2] in ("*", "k*", "v*"):
                        nv = joinv([cur, v1])
                        if nv is not cur:
                            stable = False
                            head_vals[k] = nv if it < 3 else lv
            if stable:
                final = end
                break
            final = end
        # resolve loop-carried symbols
        if final is not None:
            lvset = {v for v in head_vals.values() if isinstance(v, T) and v.op == "lv" and v.args[0] == lid}
            for k, v in list(head_vals.items()):
                if not (isinstance(v, T) and v.op == "lv" and v.args[0] == lid):
                    continue
                v0, v1 = self._get(S0, k), self._get(final, k)
                self.lvinfo[v] = (v0, v1)
                if v1 is v:
                    head_vals[k] = v0
                    continue
                step = _induction_step(v, v1)
                if step is not None and not _contains_any(step, lvset) and v0.op not in ("undef", "obj"):
                    if _loop_invariant(step, lid, self):
                        head_vals[k] = mk("ind", v0, step, lid)
                    else:
                        head_vals[k] = mk("psum", v0, step, lid)
                    continue
                if not _contains_any(v1, lvset):
                    head_vals[k] = joinv([v0, mk("prev", v1, lid)]) if k[0] == "f" and not self._callable_like(v1) else joinv([v0, v1])
        # final recorded pass
        s = S0.copy()
        s.held, s.flags = held0, flags0
        for k, v in head_vals.items():
            self._set(s, k, v)
        s.undef.update(head_undef)
        self.S = s
        self.loops.append(lid)
        try:
            o = body_fn()
        finally:
            self.loops.pop()
        end = join([x for x in [o.next] + o.cont if x is not None])
        out = Out(None)
        out.ret, out.exc = o.ret, o.exc
        for k, v in head_vals.items():
            if isinstance(v, T) and v.op == "lv" and v.args[0] == lid and end is not None:
                self.lvinfo[v] = (self._get(S0, k), self._get(end, k))
        afters = []
        if exits is not None:
            end = join(exits) if exits else None
        if end is not None:
            end = end.copy()
            # induction variables: value after the loop
            for k, v in head_vals.items():
                if isinstance(v, T) and v.op in ("ind", "psum"):
                    cur = self._get(end, k)
                    self._set(end, k, mk("loopout", v, cur))
            end.pc = frozenset(x for x in end.pc if x in S0.pc) | frozenset(
                x for x in end.pc if not _mentions_loop(x[0], lid))
            afters.append(end)
        if exits is None and (self.cfg.zero_iter or end is None and not o.brk):
            afters.append(S0)
        nxt = join(afters) if afters else None
        if nxt is not None and orelse:
            self.S = nxt
            o2 = self.block(orelse)
            nxt = o2.next
            out.absorb(o2)
        nxt = join([x for x in [*o.brk, nxt] if x is not None])
        out.next = nxt
        if nxt is not None:
            self.S = nxt
        return out

    def _callable_like(self, v):
        return any(x.op in ("func", "obj", "bound", "class") for x in alts(v))

    def loop_id(self, node):
        return self.iid("loop", self.fr.fid, self.nid(node))

    def s_For(self, st):
        it = self.eval(st.iter)
        items = self.table_items(self.iter_source(it)) if self.cfg.tables else None
        if items is not None:
            return self.for_each(st, items)
        return self.for_over(st, st.target, it, lambda: self.block(st.body), st.orelse)

    s_AsyncFor = s_For

    def table_items(self, t):
        """The elements of a short sequence of constants."""
        if t.op == "dictview" and self.exact_keys(mk("dictview", "keys", t.args[1])) is not None:
            h = self.S.heap[t.args[1].args[0]]
            kv = [(const(k[1]), v) for k, v in h.items()]
            items = [{"keys": k, "values": v, "items": mk("tuple", k, v)}[t.args[0]] for k, v in kv]
        elif t.op == "obj" and self.objs[t.args[0]]["kind"] == "dict":
            items = [const(k) for k in self.exact_keys(t) or ()]
        else:
            items = self.exact_items(t)
            if items is not None and not all(x.op in ("const", "func", "ext", "class", "bound", "partial") for x in items):
                return None
        return items if items and len(items) <= 16 else None

    def for_each(self, st, items):
        acc, breaks, nxt = Out(None), [], self.S
        for x in items:
            self.assign(st.target, x, st)
            o = self.block(st.body)
            breaks += o.brk
            acc.ret += o.ret
            acc.exc += o.exc
            nxt = [s for s in [o.next] + o.cont if s is not None]
            nxt = join(nxt) if nxt else None
            if nxt is None:
                break
            self.S = nxt
        if nxt is not None and st.orelse:
            o = self.block(st.orelse)
            acc.absorb(o)
            nxt = o.next
        ends = [s for s in [nxt] + breaks if s is not None]
        acc.next = join(ends) if ends else None
        if acc.next is not None:
            self.S = acc.next
        return acc

    def iter_source(self, it):
        """Strip transparent iterator wrappers."""
        while True:
            if it.op == "call" and it.args[0].op == "ext":
                n = it.args[0].args[0]
                if n in ("tqdm.tqdm", "tqdm.auto.tqdm", "builtins.iter", "tqdm.notebook.tqdm",
                         "tqdm.std.tqdm") and it.args[1]:
                    it = it.args[1][0]
                    continue
            return it

    def elem_of(self, it, lid):
        """Abstract element (per iteration) of iterable term ``it`` in loop ``lid``."""
        it = self.iter_source(it)
        if it.op == "phi":
            return joinv([self.elem_of(x, lid) for x in it.args])
        if it.op == "call" and it.args[0].op == "ext":
            n, a, kw = it.args[0].args[0], it.args[1], dict(it.args[2])
            if n == "builtins.enumerate" and a:
                st = kw.get("start", a[1] if len(a) > 1 else const(0))
                i = mk("idx", lid)
                if not is_const(st, 0):
                    i = mk("bin", "+", st, i)
                return mk("tuple", i, self.elem_of(a[0], lid))
            if n == "builtins.zip":
                return mk("tuple", *[self.elem_of(x, lid) for x in a])
            if n == "builtins.range":
                i = mk("idx", lid)
                if len(a) == 1:
                    return i
                lo, step = a[0], a[2] if len(a) > 2 else const(1)
                t = i if is_const(step, 1) else mk("bin", "*", step, i)
                return t if is_const(lo, 0) else mk("bin", "+", lo, t)
            if n == "builtins.reversed" and a:
                e = self.elem_of(a[0], lid)
                return mk("revelem", e, lid)
            if n == "itertools.count":
                st = a[0] if a else const(0)
                return mk("idx", lid) if is_const(st, 0) else mk("bin", "+", st, mk("idx", lid))
        if it.op == "dictview":
            k, d = it.args
            key, val = self.dict_kv(d, lid)
            return {"items": mk("tuple", key, val), "keys": key, "values": val}[k]
        if it.op == "obj":
            ob = self.objs[it.args[0]]
            h = self.S.heap.get(it.args[0], {})
            if ob["kind"] == "dict":
                return self.dict_kv(it, lid)[0]
            if ob["kind"] in ("list", "set", "tuple", "gen", "comp", "deque"):
                if h.get("items") is not None and h["items"] and len(h["items"]) <= 8:
                    return joinv(list(h["items"]))
                if "*" in h:
                    return h["*"]
        if it.op == "tuple" and it.args:
            if len(it.args) <= 8:
                return joinv(list(it.args))
        return mk("elem", it, lid)

    def dict_kv(self, d, lid):
        if d.op == "obj":
            h = self.S.heap.get(d.args[0], {})
            ks = [const(k[1]) for k in h if isinstance(k, tuple) and k[0] == "k"]
            vs = [v for k, v in h.items() if isinstance(k, tuple) and k[0] == "k"]
            if "k*" in h:
                ks.append(h["k*"])
            if "v*" in h:
                vs.append(h["v*"])
            if ks and vs:
                return joinv(ks), joinv(vs)
        return mk("elem", mk("dictview", "keys", d), lid), mk("elem", mk("dictview", "values", d), lid)

    def for_over(self, st, target, it, body, orelse=None):
        src = self.iter_source(it)
        inner = src
        enum_start = None
        if src.op == "call" and src.args[0] is ext("builtins.enumerate") and src.args[1]:
            inner = self.iter_source(src.args[1][0])
            enum_start = dict(src.args[2]).get("start", src.args[1][1] if len(src.args[1]) > 1 else const(0))
        if inner.op == "obj" and inner.args[0] in self.generators and target is not None:
            return self.for_gen(st, target, inner, body, enum_start, orelse)
        lid = self.loop_id(st)
        self.loopinfo[lid] = {"iter": it, "node": st, "frame": self.fr, "module": self.fr.module}
        self.ev("iter", st, iterable=it, lid=lid)
        self.may_raise(st)

        def body_fn():
            e = self.elem_of(it, lid)
            self.assign(target, e, st)
            o = body()
            return o

        return self.loop(lid, st, body_fn, orelse)

    def for_gen(self, st, target, g, body, enum_start, orelse):
        fterm, fv, bound, xpos, xkw = self.generators[g.args[0]]
        fr_consumer = self.fr
        acc = Out(None)
        breaks = []

        def cb(value):
            # run the consumer body in the consumer's frame at the yield point
            saved = self.stack
            depth = self.stack.index(fr_consumer)
            tail = self.stack[depth + 1:]
            self.stack = self.stack[: depth + 1]
            try:
                v = value
                if enum_start is not None:
                    i = mk("idx", self.loops[-1]) if self.loops else const(0)
                    if not is_const(enum_start, 0):
                        i = mk("bin", "+", enum_start, i)
                    v = mk("tuple", i, value)
                self.assign(target, v, st)
                o = body()
                breaks.extend(o.brk)
                acc.ret += o.ret
                acc.exc += o.exc
                nxt = join([x for x in [o.next] + o.cont if x is not None])
                if nxt is None:
                    raise Dead
                self.S = nxt
            finally:
                self.stack = self.stack + tail
            return NONE

        lid = self.loop_id(st)
        self.loopinfo[lid] = {"iter": g, "node": st, "frame": self.fr, "module": self.fr.module, "gen": True}
        self.ev("iter", st, iterable=g, lid=lid)
        try:
            self.run(fv, bound, xpos, xkw, st, yield_cb=cb)
            nxt = self.S
        except Dead:
            nxt = None
        acc.next = join([x for x in [nxt] + breaks if x is not None])
        if acc.next is not None:
            self.S = acc.next
        return acc

    def s_While(self, st):
        lid = self.loop_id(st)
        self.loopinfo[lid] = {"iter": mk("unk", "while"), "node": st, "frame": self.fr, "module": self.fr.module}
        ev_done = self.ev("iter", st, iterable=mk("unk", "while"), lid=lid)
        exits = []

        def body_fn():
            del exits[:]
            ct = self.eval(st.test)
            self.ev("branch", st.test, cond=ct)
            a, b = self.branch(ct)
            self.flag_learn(a, st.test, True)
            self.flag_learn(b, st.test, False)
            if b is not None:
                exits.append(b)
            if a is None:
                return Out(None)
            self.S = a
            return self.block(st.body)

        # left where the test fails or by a break, not at the end of the body
        return self.loop(lid, st, body_fn, st.orelse, exits)

    def s_Break(self, st):
        o = Out(None)
        o.brk.append(self.S)
        return o

    def s_Continue(self, st):
        o = Out(None)
        o.cont.append(self.S)
        return o

    # -- try / with
    def s_Try(self, st):
        pre = self.S.copy()
        self.exc_frames.append([])
        o = self.block(st.body)
        snaps = self.exc_frames.pop()
        exc_states = [(s, None) for s in snaps] + list(o.exc)
        out = Out(None)
        out.brk, out.cont, out.ret = o.brk, o.cont, o.ret
        nxts = []
        pend_exc = []
        if o.next is not None and st.orelse:
            self.S = o.next
            self.exc_frames.append([])
            oe = self.block(st.orelse)
            pend_exc += [(s, None) for s in self.exc_frames.pop()]
            out.absorb(oe)
            nxts.append(oe.next)
        else:
            nxts.append(o.next)
        out.exc = [] if st.orelse == [] else out.exc
        if st.handlers:
            base = [s.copy() for s, _ in exc_states]
            if not base:
                base = [pre.copy()]       # a call we consider benign may still raise
                speculative = True
            else:
                base.append(pre.copy()) if not self.cfg.track_exc else None
            groups = self.by_held(base)
            broad = False
            missed = []
            for h, hs in [(h, g) for h in st.handlers for g in groups]:
                if self.cfg.catches and not self.cfg.catches(ast.unparse(h.type) if h.type else "BaseException", hs):
                    missed.append(hs)
                    continue
                self.S = hs.copy()
                if h.name:
                    self.store_name(h.name, mk("exc", ast.unparse(h.type) if h.type else ""))
                self.ev("handler", h, type=ast.unparse(h.type) if h.type else "")
                self.exc_frames.append([])
                oh = self.block(h.body)
                pend_exc += [(s, None) for s in self.exc_frames.pop()]
                nxts.append(oh.next)
                out.absorb(oh)
                tn = ast.unparse(h.type) if h.type else "BaseException"
                if tn in ("BaseException", "Exception"):
                    broad = True
            if not broad:
                pend_exc += exc_states
        else:
            pend_exc += exc_states
        out.next = join([x for x in nxts if x is not None])
        pend_exc += out.exc
        out.exc = []
        if st.finalbody:
            def fin(s):
                self.S = s
                of = self.block(st.finalbody)
                if of.ret:
                    out.ret += of.ret
                return of.next
            if out.next is not None:
                out.next = fin(out.next)
            out.ret = [(fin(s), v) for s, v in out.ret]
            out.ret = [(s, v) for s, v in out.ret if s is not None]
            out.brk = [x for x in (fin(s) for s in out.brk) if x is not None]
            out.cont = [x for x in (fin(s) for s in out.cont) if x is not None]
            if pend_exc:
                done = []
                for js in self.by_held([s for s, _ in pend_exc]):
                    s2 = fin(js.copy())
                    if s2 is not None:
                        s2.why = js.why
                        done.append((s2, None))
                pend_exc = done
        for s, v in pend_exc:
            out.exc.append((s, v))
        if out.next is not None:
            self.S = out.next
        return out

    s_TryStar = s_Try

    def by_held(self, states):
        """Exceptional states, joined separately for each set of held resources."""
        if not self.cfg.track_exc:
            return [join([s.copy() for s in states])]
        d = {}
        for s in states:
            d.setdefault(s.held, []).append(s)
        return [join([s.copy() for s in g]) for g in d.values()]

    def s_With(self, st):
        return self._with(list(st.items), st)

    s_AsyncWith = s_With

    def _with(self, items, st):
        if not items:
            return self.block(st.body)
        item = items[0]
        ce = item.context_expr
        # repository @contextmanager
        if isinstance(ce, ast.Call):
            ft = self.eval_callee(ce.func)
            fv = self.lookup_fv(ft)
            if fv is not None and fv[0].info is not None and fv[0].info.is_ctxmanager and not self.is_opaque(fv[0].info):
                args, kwargs = self.eval_args(ce)
                acc = Out(None)
                fr_consumer = self.fr
                got = []

                def cb(value):
                    depth = self.stack.index(fr_consumer)
                    tail = self.stack[depth + 1:]
                    self.stack = self.stack[: depth + 1]
                    try:
                        if item.optional_vars is not None:
                            self.assign(item.optional_vars, value, st)
                        o = self._with(items[1:], st)
                        acc.brk += o.brk
                        acc.cont += o.cont
                        acc.ret += o.ret
                        for s, v in o.exc:
                            self.exc_frames[-1].append(s)
                        if o.next is None:
                            got.append(None)
                            raise Dead
                        self.S = o.next
                    finally:
                        self.stack = self.stack + tail
                    return NONE
                try:
                    self.call_func(ft, fv[0], args, kwargs, ce, self_term=fv[1], yield_cb=cb)
                    acc.next = self.S
                except Dead:
                    acc.next = None
                return acc
        cm = self.eval(ce)
        self.ev("with", st, cm=cm)
        if item.optional_vars is not None:
            v = mk("enter", cm)
            if cm.op == "obj":
                en = self.method(cm, "__enter__")
                if en is not None:
                    v = self.call_term(en, (), (), ce)
            self.assign(item.optional_vars, v, st)
        old = self.S.ctx
        self.S.ctx = old | {cm}
        if self.cfg.track_exc:
            self.exc_frames.append([])
        o = self._with(items[1:], st)
        snaps = self.exc_frames.pop() if self.cfg.track_exc else []

        def restore(s):
            s.ctx = frozenset(x for x in s.ctx if x in old or x is not cm)
            return s
        if cm.op == "obj" and self.method(cm, "__exit__") is not None:
            def ex(s):
                self.S = s
                self.call_term(self.method(cm, "__exit__"), (NONE, NONE, NONE), (), ce)
                return self.S
            if o.next is not None:
                o.next = ex(o.next)
            o.ret = [(ex(s), v) for s, v in o.ret]
            snaps = [self._after(ex, s) for s in self.by_held(snaps)] if snaps else []
            o.exc = [(self._after(ex, s), v) for s, v in o.exc] if self.cfg.track_exc else o.exc
        if self.cfg.cm_exit:
            for s in [o.next] + [s for s, _ in o.ret] + o.brk + o.cont + [s for s, _ in o.exc] + snaps:
                if s is not None:
                    keep, self.S = self.S, s
                    s.held = s.held - frozenset(self.cfg.cm_exit(self, cm))
                    self.S = keep
        if self.cfg.catches and cm.op == "call" and cm.args[0].op == "ext" and cm.args[0].args[0] == "contextlib.suppress":
            kept, caught = [], []
            for s in snaps + [s for s, _ in o.exc]:
                (caught if any(self.cfg.catches(x.args[0] if x.op == "ext" else show(x), s) for x in cm.args[1]) else kept).append(s)
            snaps, o.exc = kept, []
            o.next = join([x for x in [o.next] + caught if x is not None])
        for s in snaps:
            self.exc_frames[-1].append(restore(s))
        if o.next is not None:
            o.next = restore(o.next)
            self.S = o.next
        for s, _ in o.ret:
            restore(s)
        for s in o.brk + o.cont:
            restore(s)
        for s, _ in o.exc:
            restore(s)
        return o

    @staticmethod
    def _after(f, s):
        why = s.why
        s = f(s)
        s.why = why
        return s

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for n in ast.iter_child_nodes(e):
                if isinstance(n, ast.expr):
                    self.eval(n)
            return mk("unk", type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis:
            return mk("ellipsis")
        return const(v)

    def e_Name(self, e):
        return self.load(e.id, e)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                it = self.exact_items(v)
                if it is None:
                    out.append(mk("star", v))
                else:
                    out += it
            else:
                out.append(self.eval(x))
        return mk("tuple", *out)

    def e_List(self, e, kind="list"):
        t = self.e_Tuple(e)
        o = self.new_obj(kind, e)
        h = self.S.heap[o.args[0]]
        if any(x.op == "star" for x in t.args):
            vals = [self.content_of(x.args[0]) if x.op == "star" else x for x in t.args]
            vals = [v for v in vals if v is not None]
            h["items"] = None
            if vals:
                h["*"] = joinv(vals)
        else:
            h["items"] = t.args
            if t.args:
                h["*"] = joinv(list(t.args))
        for x in t.args:
            self.add_content(o, "lit", x)
        return o

    def e_Set(self, e):
        return self.e_List(e, "set")

    def e_Dict(self, e):
        pairs = []
        for k, v in zip(e.keys, e.values):
            kv = self.eval(k) if k is not None else None
            pairs.append((kv, self.eval(v)))
        o = self.new_obj("dict", e)
        for k, v in pairs:
            if k is None:
                self.dict_update(o, v)
            else:
                self.dict_set(o, k, v)
        return o

    def dict_set(self, o, k, v):
        h = self.S.heap.setdefault(o.args[0], {})
        self.add_content(o, "key", k)
        self.add_content(o, "val", v)
        if k.op == "const" and _hashable(k.args[0]):
            h[("k", k.args[0])] = v
        else:
            h["k*"] = joinv([h["k*"], k]) if "k*" in h else k
            h["v*"] = joinv([h["v*"], v]) if "v*" in h else v

    def dict_update(self, o, v):
        h = self.S.heap.setdefault(o.args[0], {})
        self.add_content(o, "spread", v)
        if v.op == "obj" and self.objs[v.args[0]]["kind"] == "dict":
            for k, x in self.S.heap.get(v.args[0], {}).items():
                if k == "v*":
                    h["v*"] = joinv([h["v*"], x]) if "v*" in h else x
                elif k == "k*":
                    h["k*"] = joinv([h["k*"], x]) if "k*" in h else x
                elif isinstance(k, tuple):
                    h[k] = x
        else:
            vv = mk("val", v)
            kk = mk("key", v)
            h["v*"] = joinv([h["v*"], vv]) if "v*" in h else vv
            h["k*"] = joinv([h["k*"], kk]) if "k*" in h else kk

    def comp(self, e, gens, leaf, kind):
        o = self.new_obj(kind, e)
        uid = o.args[0]
        fr = self.fr
        saved = {}
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        cur = self.S.frames[fr.fid]
        for n in names:
            saved[n] = cur.get(n)
        oldlocals = fr.locals
        fr.locals = fr.locals | names
        loops_used, conds = [], []

        def rec(i):
            if i == len(gens):
                leaf(o)
                return
            g = gens[i]
            it = self.eval(g.iter)

            def body():
                skipped = []
                for c in g.ifs:
                    ct = self.eval(c)
                    conds.append(ct)
                    tv = self.truth(ct)
                    if tv is False:
                        skipped.append(self.S)
                        self.S = join(skipped) if self.cfg.flat else skipped[0]
                        return Out(self.S)
                    if tv is None:
                        a, b = self.branch(ct)
                        self.flag_learn(a, c, True)
                        self.flag_learn(b, c, False)
                        if b is not None:
                            skipped.append(b)
                        if a is None:
                            self.S = join(skipped) if self.cfg.flat else skipped[0]
                            return Out(self.S)
                        self.S = a
                rec(i + 1)
                if self.cfg.flat:
                    self.S = join([self.S, *skipped])
                elif skipped:
                    self.S.pc = skipped[0].pc
                return Out(self.S)

            lid = self.iid("loop", fr.fid, self.nid(g.iter), "comp")
            loops_used.append(lid)
            src = self.iter_source(it)
            if src.op == "obj" and src.args[0] in self.generators:
                oo = self.for_gen(g.target, g.target, src, body, None, None)
                return
            self.loopinfo[lid] = {"iter": it, "node": e, "frame": fr, "module": fr.module, "comp": True}
            self.ev("iter", g.iter, iterable=it, lid=lid)
            self.may_raise(g.iter)

            def body_fn():
                try:
                    el = self.elem_of(it, lid)
                    self.assign(g.target, el, e)
                    return body()
                except Dead:
                    return Out(None)

            oo = self.loop(lid, g.iter, body_fn)
            if oo.next is None:
                raise Dead

        # iterate with loop machinery; element content is joined
        try:
            rec(0)
        finally:
            fr.locals = oldlocals
            d = self.S.frames.get(fr.fid)
            if d is not None:
                for n, v in saved.items():
                    if v is None:
                        d.pop(n, None)
                    else:
                        d[n] = v
        self.objs[uid]["loops"] = tuple(dict.fromkeys(loops_used))
        self.objs[uid]["conds"] = tuple(conds)
        return o

    def e_ListComp(self, e, kind="list"):
        def leaf(o):
            v = self.eval(e.elt)
            h = self.S.heap[o.args[0]]
            h["items"] = None
            h["*"] = joinv([h["*"], v]) if "*" in h else v
            if not self.mute:
                self.add_content(o, "comp", v)
            if self.cfg.flat:
                self.ev("item", e.elt, base=o, value=v)
        return self.comp(e, e.generators, leaf, kind)

    def map_call(self, args, e):
        """map(f, a, b) as (f(x, y) for x, y in zip(a, b))."""
        node = getattr(e, "sa_map", None)
        if node is None or len(node.sa_names) != len(args):
            k = len(args) - 1
            src = "map_i0" if k == 1 else "map_z"
            tgt = "map_x0" if k == 1 else ", ".join(f"map_x{j}" for j in range(k))
            node = ast.parse(f"(map_f({tgt}) for {tgt} in {src})", mode="eval").body
            for n in ast.walk(node):
                n.lineno, n.col_offset = e.lineno, e.col_offset
                n.end_lineno, n.end_col_offset = e.end_lineno, e.end_col_offset
            node.sa_names = ["map_f"] + [f"map_i{j}" for j in range(k)]
            e.sa_map = node
        fr = self.fr
        vals = dict(zip(node.sa_names, args))
        if len(args) > 2:
            vals["map_z"] = call(ext("builtins.zip"), tuple(args[1:]), (), None)
        old = fr.locals
        cur = self.S.frames[fr.fid]
        saved = {n: cur.get(n) for n in vals}
        fr.locals = fr.locals | set(vals)
        cur.update(vals)
        try:
            return self.e_GeneratorExp(node)
        finally:
            fr.locals = old
            d = self.S.frames.get(fr.fid)
            if d is not None:
                for n, v in saved.items():
                    if v is None:
                        d.pop(n, None)
                    else:
                        d[n] = v

    def e_SetComp(self, e):
        return self.e_ListComp(e, "set")

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e, "comp")

    def e_DictComp(self, e):
        def leaf(o):
            k = self.eval(e.key)
            v = self.eval(e.value)
            h = self.S.heap[o.args[0]]
            h["k*"] = joinv([h["k*"], k]) if "k*" in h else k
            h["v*"] = joinv([h["v*"], v]) if "v*" in h else v
            if not self.mute:
                self.add_content(o, "key", k)
                self.add_content(o, "val", v)
        return self.comp(e, e.generators, leaf, "dict")

    def e_Attribute(self, e):
        b = self.eval(e.value)
        return self.getattr(b, e.attr, e)

    def getattr(self, b, name, node):
        if b.op == "phi":
            return joinv([self.getattr(x, name, node) for x in b.args])
        if b.op == "ext":
            return ext(b.args[0] + "." + name)
        if b.op == "mod":
            r = self.repo.member(("mod", b.args[0]), name)
            return self.res_term(r) if r else ext(b.args[0] + "." + name)
        if b.op == "class":
            ci = self._cls(b.args[0])
            if ci:
                f = ci.find(self.repo, name)
                if f:
                    return self.func_term(f)
                for c in ci.mro(self.repo):
                    if name in c.class_assigns:
                        return self.const_eval(c.class_assigns[name], c.module)
            return attr(b, name)
        if b.op == "super":
            cls_q, self_t = b.args
            ci = self.objs[self_t.args[0]]["cls"] if self_t.op == "obj" else self._cls(cls_q)
            f = ci.find(self.repo, name, after=self._cls(cls_q))
            if f:
                return mk("bound", self.func_term(f), self_t)
            return attr(b, name)
        if b.op == "obj":
            ob = self.objs[b.args[0]]
            h = self.S.heap.get(b.args[0], {})
            if name in h and ob["kind"] == "inst":
                if self.cfg.loads:
                    self.ev("load", node, base=b, attr=name, value=h[name])
                v = h[name]
                if v is UNDEF or (v.op == "phi" and UNDEF in v.args):
                    self.ev("unboundattr", node, obj=b, attr=name, always=v is UNDEF,
                            sets=[x | self.S.pc for x in self.S.undef.get(("h", b.args[0], name), [frozenset()])])
                    rest = [x for x in alts(v) if x is not UNDEF]
                    v = phi(rest) if rest else attr(b, name)
                return v
            if ob["kind"] == "inst":
                if name == "__class__":
                    return mk("class", ob["cls"].qual)
                f = ob["cls"].find(self.repo, name)
                if f is not None:
                    if f.is_property:
                        ft = self.func_term(f)
                        return self.call_func(ft, self.funcs[ft.args[0]], (), (), node, self_term=b)
                    if f.is_static:
                        return self.func_term(f)
                    return mk("bound", self.func_term(f), b)
                for c in ob["cls"].mro(self.repo):
                    if name in c.class_assigns:
                        return self.const_eval(c.class_assigns[name], c.module)
                if not ob.get("symbolic"):
                    self.ev("noattr", node, obj=b, attr=name)
                return attr(b, name)
            return attr(b, name)
        if name in ("T", "mT"):
            return mkT(b)
        t = attr(b, name)
        return self.cfg.subst.get(t, t)

    def getattr_default(self, b, name, dflt, node):
        if b.op == "obj" and self.objs[b.args[0]]["kind"] == "inst":
            ob = self.objs[b.args[0]]
            h = self.S.heap.get(b.args[0], {})
            if name in h:
                return joinv([dflt if x is UNDEF else x for x in alts(h[name])])
            if not ob.get("symbolic") and name != "__class__" and ob["cls"].find(self.repo, name) is None and \
                    not any(name in c.class_assigns for c in ob["cls"].mro(self.repo)):
                return dflt
        return self.getattr(b, name, node)

    def _cls(self, qual):
        if qual in self.local_cls:
            return self.local_cls[qual]
        try:
            return self.repo.cls(qual)
        except Exception:
            return None

    def setattr(self, b, name, v, node):
        for x in alts(b):
            if x.op == "obj":
                h = self.S.heap.setdefault(x.args[0], {})
                if b.op == "phi":
                    h[name] = joinv([h.get(name, UNDEF), v])
                else:
                    h[name] = v
                    self.S.undef.pop(("h", x.args[0], name), None)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        i = self.eval(e.slice)
        return self.subscript(b, i, e)

    def subscript(self, b, i, node, quiet=False):
        if not quiet:
            self.ev("subload", node, base=b, index=i)
        if b.op == "phi":
            return joinv([self.subscript(x, i, node, True) for x in b.args])
        if b.op == "tuple" and i.op == "const" and isinstance(i.args[0], int):
            if -len(b.args) <= i.args[0] < len(b.args) and not any(x.op == "star" for x in b.args):
                return b.args[i.args[0]]
        if b.op == "attr" and b.args[1] == "shape" and i.op == "const":
            return mk("dim", b.args[0], i.args[0])
        if b.op == "obj":
            ob = self.objs[b.args[0]]
            h = self.S.heap.get(b.args[0], {})
            if ob["kind"] == "dict":
                if i.op == "const" and ("k", i.args[0]) in h:
                    v = h[("k", i.args[0])]
                    if UNDEF not in alts(v):
                        if "v*" in h:
                            v = joinv([v, h["v*"]])
                        return v
                    v = phi([x for x in alts(v) if x is not UNDEF] or [mk("unk", "undef")])
                    return v
                vals = [v for k, v in h.items() if isinstance(k, tuple) and v is not UNDEF]
                if self.cfg.tables and i.op == "const" and self.exact_keys(b) is not None and not quiet:
                    self.ev("missingkey", node, base=b, index=i)
                if "v*" in h:
                    vals.append(h["v*"])
                if vals and i.op != "const":
                    v = joinv(vals)
                    if all(x.op in ("sub", "elem", "attr", "sym") for x in alts(v)) and i.op != "lv":
                        return mk("pick", v, b, i)
                    return v
                if vals and "v*" in h:
                    return h["v*"]
                return mk("sub", b, i)
            if ob["kind"] in ("list", "tuple", "gen", "comp", "set"):
                it = h.get("items")
                if it is not None and i.op == "const" and isinstance(i.args[0], int) and -len(it) <= i.args[0] < len(it):
                    return it[i.args[0]]
                if i.op == "slice":
                    return mk("sub", b, i)
                if "*" in h:
                    return mk("pick", h["*"], b, i)
            if ob["kind"] == "inst":
                f = ob["cls"].find(self.repo, "__getitem__")
                if f:
                    ft = self.func_term(f)
                    return self.call_func(ft, self.funcs[ft.args[0]], (i,), (), node, self_term=b)
        return sub(b, i)

    def exact_keys(self, t):
        """The keys of a dict (or of its view) if all of them are known."""
        if t.op == "dictview" and t.args[0] == "keys":
            t = t.args[1]
        if t.op != "obj" or self.objs[t.args[0]]["kind"] != "dict":
            return None
        h = self.S.heap.get(t.args[0], {})
        if "v*" in h or "k*" in h or any(UNDEF in alts(v) for v in h.values()):
            return None
        return [k[1] for k in h if isinstance(k, tuple) and k[0] == "k"]

    def set_sub(self, b, i, v, node, quiet=False):
        for x in alts(b):
            if x.op == "obj":
                ob = self.objs[x.args[0]]
                if ob["kind"] == "dict":
                    self.dict_set(x, i, v)
                elif ob["kind"] in ("list", "tuple"):
                    h = self.S.heap.setdefault(x.args[0], {})
                    it = h.get("items")
                    if it is not None and i.op == "const" and isinstance(i.args[0], int) and -len(it) <= i.args[0] < len(it):
                        l = list(it)
                        l[i.args[0]] = v
                        h["items"] = tuple(l)
                    else:
                        h["items"] = None
                    self._weak_add(x, v)
                    self.add_content(x, "set", v)

    def e_Slice(self, e):
        g = lambda x: self.eval(x) if x is not None else NONE
        return mk("slice", g(e.lower), g(e.upper), g(e.step))

    def e_BinOp(self, e):
        l = self.eval(e.left)
        r = self.eval(e.right)
        return self.binop(BINOPS[type(e.op)], l, r)

    def binop(self, op, l, r):
        if op == "@":
            return mk("matmul", l, r)
        if l.op == "const" and r.op == "const":
            try:
                v = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
                     "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b,
                     "**": lambda a, b: a ** b}[op](l.args[0], r.args[0])
                if isinstance(v, (int, float, str)):
                    return const(v)
            except Exception:
                pass
        if op == "+" and l.op == "tuple" and r.op == "tuple":
            return mk("tuple", *(l.args + r.args))
        if op in ("+", "*") and not (l.op in ("const", "fstr") and isinstance(l.args[0], str)):
            # additive / multiplicative unit
            pass
        return mk("bin", op, l, r)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return const(not t)
            return neg(v)
        if isinstance(e.op, ast.USub):
            if v.op == "const" and isinstance(v.args[0], (int, float)):
                return const(-v.args[0])
            return mk("un", "-", v)
        if isinstance(e.op, ast.Invert):
            return mk("un", "~", v)
        return v

    def e_Compare(self, e):
        l = self.eval(e.left)
        parts = []
        for op, c in zip(e.ops, e.comparators):
            r = self.eval(c)
            if self.cfg.loads and isinstance(op, (ast.In, ast.NotIn)):
                self.ev("contains", e, base=r, value=l)
            parts.append(cmp(CMPOPS[type(op)], l, r))
            l = r
        t = parts[0] if len(parts) == 1 else mk("and", *parts)
        v = self._truth_safe(t)
        return const(v) if v is not None else t

    def _truth_safe(self, t):
        return self.truth(t)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = []
        base = None
        states = []
        for k, x in enumerate(e.values):
            v = self.eval(x)
            tv = self.truth(v)
            if k == len(e.values) - 1:
                vals.append(v)
                break
            if isand:
                if tv is False:
                    vals.append(v)
                    break
                if tv is True:
                    continue
            else:
                if tv is True:
                    vals.append(v)
                    break
                if tv is False:
                    continue
            vals.append(v)
            pcs = self.S.pc
            states.append((self.S.copy(), pcs))
            try:
                self.assume(v, isand)
            except Dead:
                break
        if states:
            self.S = join([s for s, _ in states] + [self.S])
            self.S.pc = states[0][1]
        if len(vals) == 1:
            return vals[0]
        boolish = all(x.op in ("cmp", "not", "and", "or", "isinstance") or
                      (x.op == "const" and isinstance(x.args[0], bool)) for x in vals)
        if boolish:
            return mk("and" if isand else "or", *vals)
        if not isand:
            # value-or: x or default -> default only if x falsy
            return mk("or", *vals)
        return mk("and", *vals)

    def e_IfExp(self, e):
        ct = self.eval(e.test)
        a, b = self.branch(ct)
        vs, ss = [], []
        if a is not None:
            self.S = a
            try:
                vs.append(self.eval(e.body))
                ss.append(self.S)
            except Dead:
                pass
        if b is not None:
            self.S = b
            try:
                vs.append(self.eval(e.orelse))
                ss.append(self.S)
            except Dead:
                pass
        if not ss:
            raise Dead
        self.S = join(ss)
        return joinv(vs)

    def e_Lambda(self, e):
        return self.make_closure(e)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.eval(v.format_spec) if v.format_spec is not None else NONE
                parts.append(mk("fmt", self.eval(v.value), spec))
            else:
                parts.append(self.eval(v))
        if self.cfg.tables and all(x.op == "const" or x.op == "fmt" and x.args[0].op == "const" and x.args[1] is NONE for x in parts):
            return const("".join(str((x if x.op == "const" else x.args[0]).args[0]) for x in parts))
        return mk("fstr", *parts)

    def e_FormattedValue(self, e):
        return mk("fmt", self.eval(e.value), NONE)

    def e_Starred(self, e):
        return mk("star", self.eval(e.value))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        self.ev("yield", e, value=v)
        cb = self.fr.yield_cb
        if cb is not None:
            return cb(v)
        self.may_raise(e)
        return mk("unk", "yield")

    def e_YieldFrom(self, e):
        it = self.eval(e.value)
        cb = self.fr.yield_cb
        lid = self.loop_id(e)
        src = self.iter_source(it)
        if cb is None:
            return mk("unk", "yield")
        self.loopinfo[lid] = {"iter": it, "node": e, "frame": self.fr, "module": self.fr.module}

        def body_fn():
            cb(self.elem_of(it, lid))
            return Out(self.S)
        self.loop(lid, e, body_fn)
        return NONE

    def e_Await(self, e):
        return self.eval(e.value)

    # ------------------------------------------------------------ calls
    def eval_args(self, e):
        args, kwargs = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(mk("star", self.eval(a.value)))
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                items = self.dict_items(v)
                if items is not None:
                    kwargs += list(items.items())
                else:
                    kwargs.append(("**", v))
            else:
                kwargs.append((k.arg, v))
        return tuple(args), tuple(kwargs)

    def eval_callee(self, f):
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "super":
            return self.e_Call(f)
        return self.eval(f)

    def lookup_fv(self, ft):
        if ft.op == "func":
            return self.funcs[ft.args[0]], None
        if ft.op == "bound":
            return self.funcs[ft.args[0].args[0]], ft.args[1]
        return None

    def e_Call(self, e):
        self.call_nodes += 1
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            fr = self.fr
            p0 = fr.info.params[0] if fr.info and fr.info.params else None
            s = self.S.frames[fr.fid].get(p0, mk("unk", "self"))
            return mk("super", fr.cls.qual if fr.cls else "?", s)
        ft = self.eval_callee(f)
        args, kwargs = self.eval_args(e)
        return self.call_term(ft, args, kwargs, e)

    def call_term(self, ft, args, kwargs, e):
        if ft.op == "phi":
            if not args and all(x.op == "attr" and x.args[1] == "clear" and x.args[0].op == "obj" and
                                self.objs[x.args[0].args[0]]["kind"] in ("dict", "list", "set") for x in ft.args):
                # whichever container it is, it is empty afterwards
                for x in ft.args:
                    self.call_term(x, args, kwargs, e)
                return NONE
            base = self.S
            rs, ss = [], []
            for x in ft.args:
                self.S = base.copy()
                try:
                    rs.append(self.call_term(x, args, kwargs, e))
                    ss.append(self.S)
                except Dead:
                    pass
            if not ss:
                raise Dead
            self.S = join(ss)
            return joinv(rs)
        fv = self.lookup_fv(ft)
        if fv is not None:
            return self.call_func(ft, fv[0], args, kwargs, e, self_term=fv[1])
        if ft.op == "class":
            ci = self._cls(ft.args[0])
            if ci is not None:
                return self.instantiate(ci, args, kwargs, e)
        if ft.op == "ext":
            return self.call_ext(ft, args, kwargs, e)
        if ft.op == "attr":
            return self.call_method(ft, args, kwargs, e)
        if ft.op == "obj" and self.objs[ft.args[0]]["kind"] == "inst":
            m = self.method(ft, "__call__")
            if m is not None:
                return self.call_term(m, args, kwargs, e)
        if ft.op == "partial":
            base, a0, k0 = ft.args
            return self.call_term(base, tuple(a0) + tuple(args), tuple(k0) + tuple(kwargs), e)
        if self.cfg.enter_vmap and ft.op == "call" and ft.args[0].op == "ext" and \
                ft.args[0].args[0].rsplit(".", 1)[-1] == "vmap" and ft.args[1] and \
                (self.lookup_fv(ft.args[1][0]) is not None or ft.args[1][0].op == "partial"):
            # a function mapped over the rows of its arguments: analyse it on one row
            rows = tuple(call(ext("vmap.row"), (a,), ()) for a in args)
            r = call(ext("vmap.stack"), (self.call_term(ft.args[1][0], rows, kwargs, e),), ())
            self.ev("call", e, callee="<vmap>", func=ft, args=args, kwargs=kwargs, recv=None, result=r, bound={})
            return r
        r = call(ft, args, kwargs)
        self.ev("call", e, callee="<value>", func=ft, args=args, kwargs=kwargs, recv=None, result=r, bound={})
        self.may_raise(e)
        return r

    def method(self, o, name):
        ob = self.objs[o.args[0]]
        if ob["kind"] == "inst" and ob["cls"] is not None:
            f = ob["cls"].find(self.repo, name)
            if f is not None:
                return mk("bound", self.func_term(f), o)
        return None

    def content_of(self, v):
        if v.op == "tuple":
            return joinv(list(v.args)) if v.args else None
        if v.op == "obj":
            return self.S.heap.get(v.args[0], {}).get("*")
        return mk("elem", v, 0)

    def _weak_add(self, o, v):
        if v is None:
            return
        h = self.S.heap.setdefault(o.args[0], {})
        h["*"] = joinv([h["*"], v]) if "*" in h else v

    def drain(self, it, node, kind):
        """list(it)/tuple(it)/...: object with the contents of an iterable."""
        src = self.iter_source(it)
        if src.op == "obj" and src.args[0] in self.generators:
            o = self.new_obj(kind, node, extra="drain")
            tgt = ast.Name(id="__drain__", ctx=ast.Store(), lineno=node.lineno, col_offset=node.col_offset)
            fr = self.fr
            old = fr.locals
            fr.locals = fr.locals | {"__drain__"}

            def body():
                v = self.load("__drain__", tgt)
                self._weak_add(o, v)
                if not self.mute:
                    self.add_content(o, "append", v)
                return Out(self.S)
            self.for_gen(node, tgt, src, body, None, None)
            fr.locals = old
            self.S.heap[o.args[0]]["items"] = None
            return o
        items = self.exact_items(src)
        o = self.new_obj(kind, node, extra="drain")
        h = self.S.heap[o.args[0]]
        if items is not None:
            if kind == "tuple":
                return mk("tuple", *items)
            h["items"] = tuple(items)
            if items:
                h["*"] = joinv(items)
            for x in items:
                self.add_content(o, "lit", x)
            return o
        h["items"] = None
        if src.op == "obj" and src.args[0] in self.contents:
            for how, v in self.contents[src.args[0]]:
                self.add_content(o, how, v)
        self.objs[o.args[0]]["from"] = src
        if src.op == "obj":
            self.objs[o.args[0]]["loops"] = self.objs[src.args[0]].get("loops", ())
        lid = self.iid("loop", self.fr.fid, self.nid(node), "drain")
        self.loopinfo.setdefault(lid, {"iter": src, "node": node, "frame": self.fr, "module": self.fr.module, "drain": True})
        el = self.elem_of(src, lid)
        h["*"] = el
        self.add_content(o, "elem", el)
        return o

    def call_ext(self, ft, args, kwargs, e):
        n = ft.args[0]
        kw = dict(kwargs)
        if n.startswith("builtins."):
            b = n[9:]
            if b == "isinstance" and len(args) == 2:
                t = mk("isinstance", args[0], args[1])
                v = self.truth(t)
                return const(v) if v is not None else t
            if b == "len" and len(args) == 1:
                if self.cfg.loads:
                    self.ev("contains", e, base=args[0], value=None)
                it = self.exact_items(args[0])
                if it is not None:
                    return const(len(it))
                return mk("dim", args[0], 0)
            if b in ("list", "tuple", "set", "sorted"):
                if not args:
                    o = self.new_obj(b if b != "sorted" else "list", e)
                    self.S.heap[o.args[0]]["items"] = ()
                    return mk("tuple") if b == "tuple" else o
                r = self.drain(args[0], e, b if b != "sorted" else "list")
                if b == "sorted" and r.op == "obj":
                    self.S.heap[r.args[0]]["items"] = None
                    self.objs[r.args[0]]["sorted"] = True
                self.ev("call", e, callee=n, func=ft, args=args, kwargs=kwargs, recv=None, result=r, bound={})
                return r
            if b == "slice" and 1 <= len(args) <= 3 and not kwargs:
                lo, hi, st = (NONE, args[0], NONE) if len(args) == 1 else (*args, NONE)[:3]
                return mk("slice", lo, hi, st)
            if b == "map" and len(args) >= 2 and not kwargs and not any(a.op == "star" for a in args):
                return self.map_call(args, e)
            if b == "dict":
                o = self.new_obj("dict", e)
                for a in args:
                    if a.op == "call" and a.args[0] is ext("builtins.zip") and len(a.args[1]) == 2:
                        lid = self.iid("loop", self.fr.fid, self.nid(e), "dictzip")
                        self.loopinfo.setdefault(lid, {"iter": a, "node": e, "frame": self.fr, "module": self.fr.module})
                        k, v = self.elem_of(a.args[1][0], lid), self.elem_of(a.args[1][1], lid)
                        h = self.S.heap[o.args[0]]
                        h["k*"], h["v*"] = k, v
                        self.add_content(o, "key", k)
                        self.add_content(o, "val", v)
                        self.objs[o.args[0]]["zip"] = a
                    else:
                        self.dict_update(o, a)
                for k, v in kwargs:
                    if k == "**":
                        self.dict_update(o, v)
                    else:
                        self.dict_set(o, const(k), v)
                return o
            if b == "getattr" and len(args) >= 2 and args[1].op == "const" and isinstance(args[1].args[0], str):
                if len(args) == 3:
                    return joinv([self.getattr_default(x, args[1].args[0], args[2], e) for x in alts(args[0])])
                return self.getattr(args[0], args[1].args[0], e)
            if b == "setattr" and len(args) == 3 and args[1].op == "const":
                self.ev("setattr", e, base=args[0], attr=args[1].args[0], value=args[2])
                self.setattr(args[0], args[1].args[0], args[2], e)
                return NONE
            if b == "setattr" and len(args) == 3:
                self.ev("setattr", e, base=args[0], attr=args[1], value=args[2])
                return NONE
            if b == "hasattr" and len(args) == 2 and args[0].op == "obj" and args[1].op == "const":
                nm = args[1].args[0]
                ob = self.objs[args[0].args[0]]
                if ob["kind"] == "inst":
                    h = self.S.heap.get(args[0].args[0], {})
                    if nm in h:
                        v = h[nm]
                        if v is UNDEF:
                            return FALSE
                        if UNDEF not in alts(v):
                            return TRUE
                    elif ob["cls"].find(self.repo, nm):
                        return TRUE
                    elif not ob.get("symbolic"):
                        return FALSE
            if b in ("min", "max") and len(args) >= 2 and not kwargs:
                if all(a.op == "const" for a in args):
                    try:
                        return const({"min": min, "max": max}[b](a.args[0] for a in args))
                    except TypeError:
                        pass
                return mk(b, *sorted(set(args), key=lambda t: t.id))
            if b == "next" and args:
                src = self.iter_source(args[0])
                return mk("first", src)
            if b in ("int", "float", "bool", "str", "abs") and len(args) == 1:
                if args[0].op == "const" and b in ("int", "float", "str"):
                    try:
                        return const({"int": int, "float": float, "str": str}[b](args[0].args[0]))
                    except Exception:
                        pass
            if b == "print":
                self.ev("call", e, callee=n, func=ft, args=args, kwargs=kwargs, recv=None, result=NONE, bound={})
                return NONE
        if n in ("functools.partial",) and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(kwargs))
        if n in ("collections.OrderedDict", "collections.defaultdict") or n == "collections.Counter" and not args:
            o = self.new_obj("dict", e)
            for a in args:
                if n.endswith("OrderedDict"):
                    self.dict_update(o, a)
            if n.endswith("defaultdict") and args:
                self.objs[o.args[0]]["factory"] = args[0]
            return o
        if n in ("collections.deque",):
            o = self.new_obj("list", e)
            self.S.heap[o.args[0]]["items"] = ()
            return o
        last = n.split(".")[-1]
        if n.startswith(("torch.", "numpy.")):
            if last in ("matmul", "mm") and len(args) == 2:
                return mk("matmul", args[0], args[1])
            if last == "transpose" and len(args) == 3 and {str(a.args[0]) for a in args[1:] if a.op == "const"} <= {"0", "1", "-1", "-2"}:
                return mkT(args[0])
            if last == "t" and len(args) == 1:
                return mkT(args[0])
            if last in TORCH_BIN and len(args) == 2 and not kwargs:
                return mk("bin", TORCH_BIN[last], args[0], args[1])
        uid = None
        if n in ALLOCS or n in IDENTITY:
            uid = self.iid("alloc", self.fr.fid, self.nid(e))
        r = call(ft, args, kwargs, uid)
        self.ev("call", e, callee=n, func=ft, args=args, kwargs=kwargs, recv=None, result=r, bound={})
        if n not in BENIGN_EXT:
            self.may_raise(e)
        return r

    def call_method(self, ft, args, kwargs, e):
        recv, name = ft.args
        kw = dict(kwargs)
        if recv.op == "obj":
            r = self.container_method(recv, name, args, kwargs, e)
            if r is not None:
                self.ev("call", e, callee="." + name, func=ft, args=args, kwargs=kwargs, recv=recv, result=r, bound={})
                return r
        if name in ("items", "keys", "values") and not args:
            r = mk("dictview", name, recv)
            self.ev("call", e, callee="." + name, func=ft, args=args, kwargs=kwargs, recv=recv, result=r, bound={})
            return r
        if name == "size" and len(args) == 1 and args[0].op == "const":
            return mk("dim", recv, args[0].args[0])
        if name == "size" and not args and not kwargs:
            return mk("attr", recv, "shape")
        if name in ("t",) and not args:
            return mkT(recv)
        if name in ("transpose", "swapaxes") and len(args) == 2 and {str(a.args[0]) for a in args if a.op == "const"} <= {"0", "1", "-1", "-2"} and all(a.op == "const" for a in args):
            return mkT(recv)
        if name in ("matmul", "mm") and len(args) == 1:
            return mk("matmul", recv, args[0])
        if name in TORCH_BIN and len(args) == 1 and not kwargs and recv.op not in ("obj",):
            return mk("bin", TORCH_BIN[name], recv, args[0])
        # typed opaque receivers: normalise the argument binding
        ci = self.cfg.types.get(recv)
        if ci is not None:
            f = ci.find(self.repo, name)
            if f is not None:
                fv = self.funcs[self.func_term(f).args[0]]
                a2 = args if f.is_static else (recv,) + tuple(args)
                bound, xp, xk, problems = self.bind(fv, a2, kwargs, True)
                ps = [x for x in f.params if x not in bound]
                dfl = self.defaults(fv, ps)
                bound.update(dfl)
                if not f.is_static:
                    bound.pop(f.params[0], None)
                r = mk("call", ft, (), tuple(sorted(bound.items())), None)
                self.ev("call", e, callee=f.qual, func=ft, args=args, kwargs=kwargs, recv=recv, result=r,
                        bound=bound, defaulted=frozenset(dfl))
                if problems:
                    self.ev("badcall", e, callee=f.qual, problems=tuple(problems))
                self.may_raise(e)
                return r
        uid = None
        if name in METHOD_ALLOCS:
            uid = self.iid("alloc", self.fr.fid, self.nid(e))
        r = call(ft, args, kwargs, uid)
        if self.cfg.model:
            r = self.cfg.model(self, recv, name, r)
        self.ev("call", e, callee="." + name, func=ft, args=args, kwargs=kwargs, recv=recv, result=r, bound={})
        if name not in BENIGN:
            self.may_raise(e)
        return r

    def container_method(self, o, name, args, kwargs, e):
        ob = self.objs[o.args[0]]
        h = self.S.heap.setdefault(o.args[0], {})
        k = ob["kind"]
        if k in ("list", "set", "comp", "gen", "tuple"):
            if name in ("append", "add") and len(args) == 1:
                if not self.mute:
                    self.add_content(o, name, args[0])
                it = h.get("items")
                h["items"] = tuple(it) + (args[0],) if it is not None and not self.loops_since(o) else None
                self._weak_add(o, args[0])
                return NONE
            if name == "insert" and len(args) == 2:
                if not self.mute:
                    self.add_content(o, "insert", args[1])
                h["items"] = None
                self._weak_add(o, args[1])
                return NONE
            if name == "appendleft" and len(args) == 1:
                if not self.mute:
                    self.add_content(o, "insert", args[0])
                h["items"] = None
                self._weak_add(o, args[0])
                return NONE
            if name in ("extend", "update") and len(args) == 1:
                src = self.iter_source(args[0])
                if not self.mute:
                    self.add_content(o, "extend", src)
                h["items"] = None
                lid = self.iid("loop", self.fr.fid, self.nid(e), "extend")
                self.loopinfo.setdefault(lid, {"iter": src, "node": e, "frame": self.fr, "module": self.fr.module, "drain": True})
                self._weak_add(o, self.elem_of(src, lid))
                return NONE
            if name in ("pop", "popleft"):
                h["items"] = None
                return mk("pick", h["*"], o, args[0] if args else NONE) if "*" in h else None
            if name == "clear":
                self.S.heap[o.args[0]] = {"items": ()}
                return NONE
            if name in ("reverse", "sort"):
                h["items"] = None
                if not self.mute:
                    self.add_content(o, name, NONE)
                return NONE
            if name == "copy":
                return self.drain(o, e, k)
        if k == "dict":
            if name in ("items", "keys", "values"):
                return mk("dictview", name, o)
            if name == "get" and args:
                key = args[0]
                dflt = args[1] if len(args) > 1 else NONE
                if key.op == "const" and ("k", key.args[0]) in h and "v*" not in h:
                    v = h[("k", key.args[0])]
                    return joinv([dflt if x is UNDEF else x for x in alts(v)])
                vals = [v for kk, v in h.items() if isinstance(kk, tuple) and v is not UNDEF]
                if "v*" in h:
                    vals.append(h["v*"])
                if vals and (key.op != "const" or "v*" in h):
                    return joinv(vals + [dflt])
                if not vals and "v*" not in h and not ob.get("symbolic"):
                    return None
                return None
            if name == "setdefault" and len(args) == 2:
                cur = None
                if args[0].op == "const":
                    cur = h.get(("k", args[0].args[0]))
                self.dict_set(o, args[0], args[1] if cur is None else joinv([cur, args[1]]))
                return self.subscript(o, args[0], e, True)
            if name == "update":
                for a in args:
                    self.dict_update(o, a)
                for kk, v in kwargs:
                    self.dict_set(o, const(kk), v)
                return NONE
            if name == "clear":
                self.S.heap[o.args[0]] = {}
                return NONE
            if name == "copy":
                n = self.new_obj("dict", e)
                self.dict_update(n, o)
                return n
            if name == "pop" and args:
                return self.subscript(o, args[0], e, True)
        return None

    def loops_since(self, o):
        return bool(self.loops)

    # ------------------------------------------------------------ provenance
    def expand(self, t, seen=None, follow_lv=True):
        """All terms reachable from t (through containers, loop variables, closures)."""
        seen = seen if seen is not None else set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo.extend(children(x))
            if x.op == "obj":
                for how, v in self.contents.get(x.args[0], ()):
                    todo.append(v)
                for kk, v in self.S.heap.get(x.args[0], {}).items():
                    if isinstance(v, T):
                        if self.objs[x.args[0]]["kind"] != "inst":
                            todo.append(v)
                if x.args[0] in self.generators:
                    _, _, b, xp, xk = self.generators[x.args[0]]
                    todo.extend(v for v in b.values())
            elif x.op == "lv" and follow_lv and x in self.lvinfo:
                todo.extend(self.lvinfo[x])
            elif x.op == "partial":
                pass
        return seen

    def find(self, t, pred):
        return [x for x in self.expand(t) if pred(x)]

    def peek(self, fterm, args, kwargs=()):
        """Result term of applying a closure, without recording events."""
        saved = self.S
        self.S = self.S.copy()
        self.mute += 1
        try:
            n = ast.Call(func=ast.Name(id="f", ctx=ast.Load()), args=[], keywords=[])
            n.lineno = n.col_offset = n.end_lineno = n.end_col_offset = 0
            if not self.stack:
                fv = self.lookup_fv(fterm)[0]
                self.stack.append(Frame(fid=0, info=fv.info, module=fv.module, cls=None, chain=(), locals=set(), nonlocals=set(), node=None))
                self.S.frames.setdefault(0, {})
                try:
                    return self.call_term(fterm, tuple(args), tuple(kwargs), n)
                finally:
                    self.stack.pop()
            return self.call_term(fterm, tuple(args), tuple(kwargs), n)
        except Dead:
            return mk("unk", "dead")
        finally:
            self.mute -= 1
            self.S = saved


def mkT(b):
    if b.op == "T":
        return b.args[0]
    return mk("T", b)


def is_alloc(t):
    return t.op == "call" and t.args[3] is not None


def _nm(e):
    try:
        return ast.unparse(e)
    except Exception:
        return "?"


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


_inner_cache = {}


def _has_inner(fnode):
    k = id(fnode)
    if k not in _inner_cache:
        r = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) and n is not fnode
                for n in ast.walk(fnode))
        _inner_cache[k] = (fnode, r)
    return _inner_cache[k][1]


def _contains_any(t, targets):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in targets:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo.extend(children(x))
    return False


def contains(t, x):
    return _contains_any(t, {x})


def _induction_step(lv, v1):
    """v1 == lv + c  ->  c."""
    if v1.op == "bin" and v1.args[0] == "+":
        l, r = v1.args[1], v1.args[2]
        if l is lv and not contains(r, lv):
            return r
        if r is lv and not contains(l, lv):
            return l
    return None


def _mentions_loop(t, lid):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("elem", "revelem", "prev") and x.args[-1] == lid:
            return True
        if x.op == "idx" and x.args[0] == lid:
            return True
        if x.op in ("ind", "psum") and x.args[2] == lid:
            return True
        if x.op == "lv" and x.args[0] == lid:
            return True
        todo.extend(children(x))
    return False


def _loop_invariant(t, lid, interp):
    return not _mentions_loop(t, lid)
