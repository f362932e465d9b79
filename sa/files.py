"""File effects of analysed code: which call writes, publishes, removes or reads which path."""
from __future__ import annotations

from .terms import NONE, T, alts, const, mk

STRIP = {"pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "builtins.str", "os.fspath", "os.fsdecode", "os.path.abspath",
         "os.path.normpath", "os.path.realpath"}
STRIP_M = {"resolve", "absolute", "expanduser", "as_posix", "__str__", "__fspath__"}
OPENERS = {"builtins.open", "io.open", "os.fdopen", "codecs.open", "pathlib.Path.open"}


def path(t):
    """Normal form of a path expression: the same file gets the same term."""
    if not isinstance(t, T):
        return t
    n = tempname(t)
    if n is not None:
        return n
    if t.op == "phi":
        return mk("phi", *sorted({path(x) for x in t.args}, key=lambda x: x.id))
    if t.op == "fstr":
        parts = [path(x) for x in t.args]
        return parts[0] if len(parts) == 1 else mk("fstr", *parts)
    if t.op == "fmt" and len(t.args) > 1 and (t.args[1] is None or t.args[1] is NONE):
        return path(t.args[0])
    if t.op == "call":
        f, args = t.args[0], t.args[1]
        if f.op == "ext" and f.args[0] in STRIP and len(args) >= 1:
            out = path(args[0])
            for x in args[1:]:
                out = mk("join", out, path(x))
            return out
        if f.op == "ext" and f.args[0] == "os.path.join" and args:
            out = path(args[0])
            for x in args[1:]:
                out = mk("join", out, path(x))
            return out
        if f.op == "attr" and f.args[1] in STRIP_M and not args:
            return path(f.args[0])
        if f.op == "attr" and f.args[1] == "joinpath":
            out = path(f.args[0])
            for x in args:
                out = mk("join", out, path(x))
            return out
        if f.op == "attr" and f.args[1] in ("with_suffix", "with_name", "with_stem") and args:
            return mk(f.args[1], path(f.args[0]), path(args[0]))
    if t.op == "bin" and len(t.args) == 3:
        if t.args[0] == "/":
            return mk("join", path(t.args[1]), path(t.args[2]))
        if t.args[0] == "+" and not any(number(x) for x in t.args[1:]):
            return mk("fstr", path(t.args[1]), path(t.args[2]))
    return t


def number(t):
    return t.op in ("idx", "ind", "dim", "psum") or t.op == "const" and isinstance(t.args[0], int) or t.op in ("phi", "bin") and any(
        isinstance(x, T) and number(x) for x in t.args)


def tempname(t):
    """The path of a temporary file made by the tempfile module, from its handle, its name or its number."""
    x = t.args[0] if t.op == "attr" and t.args[1] == "name" or t.op == "sub" else t
    if x.op == "enter":
        x = x.args[0]
    if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("tempfile.NamedTemporaryFile", "tempfile.mkstemp") and (
            x is not t or x.args[0].args[0] == "tempfile.NamedTemporaryFile"):
        return mk("tempname", x)
    return None


def parent(p):
    """The directory part of a path as far as it can be told, else None."""
    if p.op == "join":
        return mk("join", *p.args[:-1]) if len(p.args) > 2 else p.args[0]
    if p.op in ("fstr", "with_suffix", "with_name", "with_stem"):
        return parent(p.args[0])
    return None


def root(p):
    """What a path starts from."""
    while p.op in ("join", "fstr", "with_suffix", "with_name", "with_stem"):
        p = p.args[0]
    return p


def tail(p):
    """Constant end of a path (file name extension and more), or None."""
    if p.op == "const":
        return str(p.args[0])
    if p.op in ("join", "fstr", "with_suffix", "with_name"):
        return tail(p.args[-1])
    if p.op == "attr" and p.args[1] == "name":
        return None
    return None


def parts(p, out=None):
    """Constant strings a path is made of."""
    out = set() if out is None else out
    todo, seen = [p], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "const" and isinstance(x.args[0], str):
            out.add(x.args[0])
        else:
            todo.extend(y for y in x.args if isinstance(y, T))
            for y in x.args:
                if isinstance(y, tuple):
                    todo.extend(z for z in y if isinstance(z, T))
    return out


def kw(e, name, pos=None, default=None):
    for k, v in e.kwargs or ():
        if k == name:
            return v
    if pos is not None and e.args is not None and len(e.args) > pos:
        return e.args[pos]
    return default


class Effect:
    __slots__ = ("what", "path", "dst", "e", "handle", "how")

    def __init__(self, what, path, e, dst=None, handle=None, how=""):
        self.what, self.path, self.e, self.dst, self.handle, self.how = what, path, e, dst, handle, how

    def __repr__(self):
        from .terms import show
        return f"{self.what} {show(self.path)[-60:]}" + (f" -> {show(self.dst)[-60:]}" if self.dst is not None else "")


class Files:
    """Translates events into file effects; remembers which values are open files or mapped arrays."""

    def __init__(self):
        self.opened = {}    # term of an open file -> (path, mode)
        self.maps = {}      # term of a mapped array -> (path, mode)

    @staticmethod
    def mode(m, default="r"):
        if m is None:
            return default
        return "".join(sorted({str(x.args[0]) for x in alts(m) if x.op == "const"})) or "?"

    def lookup(self, table, t):
        if t is None:
            return None
        for x in alts(t):
            if x.op == "enter":
                x = x.args[0]
            if x in table:
                return table[x]
            while x.op in ("sub", "attr") or x.op == "call" and x.args[0].op == "attr":
                x = x.args[0] if x.op != "call" else x.args[0].args[0]
                if x in table:
                    return table[x]
        return None

    def __call__(self, i, e):
        """Effects of one event, in order."""
        if e.kind in ("substore", "inplace", "aug"):
            b = e.d.get("base")
            if b is None and e.kind == "aug":
                return ()
            m = self.lookup(self.maps, b)
            return (Effect("write", m[0], e, how="data"),) if m else ()
        if e.kind == "iter":
            return ()
        if e.kind != "call":
            return ()
        c = str(e.callee)
        last = c.rsplit(".", 1)[-1]
        res = e.d.get("result")
        args = e.args or ()
        if c in OPENERS and args or last == "open" and c.startswith(".") and e.recv is not None:
            method = c not in OPENERS
            p = path(e.recv if method else args[0])
            if c == "os.fdopen":
                p = tempname(args[0]) or p
            m = self.mode(kw(e, "mode", 0 if method else 1))
            if res is not None:
                self.opened[res] = (p, m)
            if any(x in m for x in "wax+?"):
                return (Effect("create", p, e, handle=res),)
            return (Effect("read", p, e, handle=res),)
        if c == "tempfile.NamedTemporaryFile" and res is not None:
            p = mk("tempname", res)
            self.opened[res] = (p, self.mode(kw(e, "mode", 0), "w+b"))
            return (Effect("create", p, e, handle=res),)
        if c in ("json.dump", "yaml.dump", "yaml.safe_dump", "pickle.dump") and (len(args) > 1 or kw(e, "stream") is not None or kw(e, "fp") is not None):
            h = args[1] if len(args) > 1 else kw(e, "stream") or kw(e, "fp")
            o = self.lookup(self.opened, h)
            return (Effect("write", o[0] if o else mk("unknown", h), e, how="index"),)
        if c in ("json.load", "yaml.safe_load", "yaml.load", "pickle.load") and args:
            o = self.lookup(self.opened, args[0])
            return (Effect("read", o[0], e, how="content"),) if o else ()
        if c in ("numpy.memmap", "numpy.lib.format.open_memmap") and args:
            p, m = path(args[0]), self.mode(kw(e, "mode", 2), "r+")
            if res is not None:
                self.maps[res] = (p, m)
            if "w" in m or m == "r+":
                return (Effect("write", p, e, how="data"),)
            return (Effect("read", p, e, how="content"),)
        if c in ("numpy.save", "numpy.savez", "numpy.savez_compressed") and args:
            return (Effect("write", self.target(args[0]), e, how="data"),)
        if c in ("torch.save",) and len(args) + len(e.kwargs or ()) > 1:
            return (Effect("write", self.target(kw(e, "f", 1)), e, how="data"),)
        if last == "tofile" and args and c.startswith("."):
            return (Effect("write", self.target(args[0]), e, how="data"),)
        if last in ("write_text", "write_bytes") and e.recv is not None:
            return (Effect("write", path(e.recv), e, how="index" if self.texty(i, args) else "data"),)
        if last in ("write", "writelines") and e.recv is not None:
            o = self.lookup(self.opened, e.recv)
            return (Effect("write", o[0], e, how="index" if self.texty(i, args) else "data"),) if o else ()
        if last == "flush" and e.recv is not None and self.lookup(self.maps, e.recv):
            return ()
        if c in ("os.replace", "os.rename", "shutil.move") and len(args) == 2:
            return (Effect("move", path(args[0]), e, dst=path(args[1])),)
        if last in ("replace", "rename") and c.startswith(".") and e.recv is not None and len(args) + len(e.kwargs or ()) == 1:
            return (Effect("move", path(e.recv), e, dst=path(args[0] if args else e.kwargs[0][1])),)
        if c in ("shutil.copy", "shutil.copyfile", "shutil.copy2") and len(args) >= 2:
            return (Effect("read", path(args[0]), e, how="content"), Effect("write", path(args[1]), e, how="copy"))
        if c in ("os.remove", "os.unlink") and args:
            return (Effect("remove", path(args[0]), e),)
        if last == "unlink" and c.startswith(".") and e.recv is not None:
            return (Effect("remove", path(e.recv), e),)
        if c == "shutil.rmtree" and args:
            return (Effect("rmtree", path(args[0]), e),)
        if c in ("numpy.fromfile", "numpy.load", "torch.load") and args:
            o = self.lookup(self.opened, args[0])
            return (Effect("read", o[0] if o else path(args[0]), e, how="content"),)
        if last in ("read_text", "read_bytes") and e.recv is not None and c.startswith("."):
            return (Effect("read", path(e.recv), e, how="content"),)
        if last in ("iterdir", "glob", "rglob", "exists", "is_file", "stat") and c.startswith(".") and e.recv is not None:
            return (Effect("look", path(e.recv), e),)
        if c in ("os.listdir", "os.scandir", "os.path.exists", "os.path.isfile", "glob.glob", "os.path.getsize", "os.walk") and args:
            return (Effect("look", path(args[0]), e),)
        return ()

    def target(self, t):
        o = self.lookup(self.opened, t)
        return o[0] if o else path(t)

    @staticmethod
    def texty(i, args):
        return any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].startswith(("json.", "yaml.")) for a in args
                   for x in i.expand(a))
