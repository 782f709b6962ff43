"""C01: the virtual file system against a plain directory tree with symbolic links.

States are all trees of a bounded family.  Every state is built with the raw
operating system / h5py API, every observation and every operation of the
library is executed on it, and the tree that results is read back with the raw
API and compared to what the model does."""

import copy as _copy
import io
import itertools
import os
import shutil

import h5py

from spectrocrunch.io import fs, h5fs, localfs, nxfs

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all trees with 2 top-level names and 8 to 11 kinds of entry each (file, directories, nested directory, inner/outer/parent/dangling/looping links); all observations and all copy/move/rename/remove/mkdir/write/link operations between 7 paths with every flag, on local and HDF5 paths; two-step sequences from 6 trees; two HDF5 files and HDF5 external links from 12 trees",
    "thorough": "as quick with all kinds of entry, NeXus paths, sequences of two operations from every tree (core operations) and three from 6 trees",
}
ASSUMPTIONS = [
    "the operating system and the HDF5 library behave as specified",
    "one process; copying or moving a directory into itself and expanding dangling links are only required to be refused without damage or not to lose data",
    "an operation on an HDF5 link whose mode is 'w' replaces the link (HDF5 cannot truncate a dataset)",
]

ERRORS = (fs.FileSystemException, OSError, RuntimeError, KeyError, ValueError)

# ---------------------------------------------------------------- model

MAXLINK = 12


def split(p):
    return tuple(x for x in p.split("/") if x)


class Refused(Exception):
    """kinds: the acceptable exception classes"""

    def __init__(self, *kinds):
        self.kinds = kinds or ERRORS


class Model:
    """root: ('D', {name: node}); node: ('F', content), ('D', {}), ('L', text)"""

    def __init__(self, root, h5):
        self.root = root
        self.h5 = h5

    def clone(self):
        return Model(_copy.deepcopy(self.root), self.h5)

    # -- resolution: returns (parent dict, name, physical path) or None
    def locate(self, path, follow=False, n=0):
        """physical location (tuple) of path with all intermediate links resolved"""
        cur = ()
        node = self.root
        parts = list(path)
        while parts:
            name = parts.pop(0)
            if name == "..":
                cur = cur[:-1]
                node = self.raw(cur)
                continue
            if node is None or node[0] != "D":
                return None
            child = node[1].get(name)
            if child is None:
                if parts:
                    return None
                return cur + (name,)
            if child[0] == "L" and (parts or follow):
                n += 1
                if n > MAXLINK:
                    return None
                text = child[1]
                if text.startswith("/"):
                    cur = ()
                parts = list(split(text)) + parts
                node = self.raw(cur)
                continue
            cur = cur + (name,)
            node = child
        return cur

    def target(self, path):
        """as locate but the last parts may be missing"""
        for i in range(len(path), -1, -1):
            loc = self.locate(path[:i])
            if loc is not None:
                return loc + path[i:]

    def raw(self, phys):
        node = self.root
        for p in phys:
            if node is None or node[0] != "D":
                return None
            node = node[1].get(p)
        return node

    def lget(self, path):
        loc = self.locate(path)
        return None if loc is None else self.raw(loc)

    def get(self, path):
        loc = self.locate(path, follow=True)
        return None if loc is None else self.raw(loc)

    def linkdest(self, path):
        """lexical destination of a link"""
        node = self.lget(path)
        if node is None or node[0] != "L":
            return None
        text = node[1]
        if text.startswith("/"):
            return norm(split(text))
        return norm(path[:-1] + split(text))

    def linkend(self, path):
        """last lexical destination when following links, 'loop' if endless"""
        d = self.linkdest(path)
        for _ in range(MAXLINK):
            if d is None:
                return None
            e = self.linkdest(d)
            if e is None:
                return d
            d = e
        return "loop"

    def put(self, path, node):
        loc = self.locate(path)
        self.raw(loc[:-1])[1][loc[-1]] = node

    def delete(self, path):
        loc = self.locate(path)
        del self.raw(loc[:-1])[1][loc[-1]]

    def isdir(self, path):
        n = self.get(path)
        return n is not None and n[0] == "D"

    def find(self, parts, node):
        for k, v in node[1].items():
            if k in ("x", "z"):
                yield parts + (k,)
            if v[0] == "D":
                yield from self.find(parts + (k,), v)

    # -- operations
    def op_mkdir(self, p, recursive, force):
        n = self.get(p)
        if n is not None:
            if not force:
                raise Refused(fs.AlreadyExists)
            if n[0] == "F":
                raise Refused(fs.NotADirectory)
            return p
        if self.lget(p) is not None:
            raise Refused()  # dangling link
        if not recursive:
            if self.get(p[:-1]) is None:
                raise Refused(fs.MissingParentDirectory)
        self.makedirs(p)
        return p

    def makedirs(self, p):
        for i in range(1, len(p) + 1):
            q = p[:i]
            n = self.get(q)
            if n is None:
                if self.lget(q) is not None:
                    raise Refused()
                self.put(q, ("D", {}))
            elif n[0] != "D":
                raise Refused()

    def op_write(self, p, content):
        n = self.get(p)
        if n is not None and n[0] == "D":
            raise Refused(fs.NotAFile)
        if not self.isdir(p[:-1]):
            if self.lget(p[:-1]) is None and self.isdir(p[:-2]):
                raise Refused(fs.Missing, fs.MissingParentDirectory)
            raise Refused()
        if self.h5:
            if n is None and self.lget(p) is not None:
                raise Refused()
            self.put(p, ("F", content))
        else:
            loc = self.locate(p, follow=True)
            if loc is None or self.raw(loc[:-1]) is None or self.raw(loc[:-1])[0] != "D":
                raise Refused()
            self.raw(loc[:-1])[1][loc[-1]] = ("F", content)
        return p

    def op_remove(self, p, recursive, depth=0):
        n = self.lget(p)
        if n is None:
            return None
        if n[0] == "L":
            if recursive:
                if depth > MAXLINK:
                    raise Undefined
                d = self.linkdest(p)
                self.delete(p)
                if not d:
                    raise Undefined  # everything
                self.op_remove(d, True, depth + 1)
            else:
                self.delete(p)
        elif n[0] == "D":
            if not recursive and n[1]:
                raise Refused(fs.DirectoryIsNotEmpty)
            self.delete(p)
        else:
            self.delete(p)

    def prepare(self, p, q, force, rename):
        src = self.lget(p)
        if src is None:
            raise Refused()
        if self.isdir(q) and not rename:
            q = q + (p[-1],)
        if len(q) == 0:
            raise Undefined
        ex = self.lget(q)
        sloc, dloc = self.locate(p), self.target(q)
        if dloc is not None:
            if sloc == dloc:
                if not force:
                    raise Refused(fs.AlreadyExists)
                raise Same
            if dloc[: len(sloc)] == sloc:
                if ex is not None and not force:
                    raise Refused(fs.AlreadyExists)
                raise IntoSelf
            if (sloc[: len(dloc)] == dloc or p[: len(q)] == q) and ex is not None:
                if not force:
                    raise Refused(fs.AlreadyExists)
                raise Same  # replaces its own ancestor
        if ex is not None:
            if not force:
                raise Refused(fs.AlreadyExists)
        return q, ex is not None

    def op_copy(self, p, q, force, follow, deref):
        if follow and self.get(p) is None:
            raise Refused()
        q, replaced = self.prepare(p, q, force, False)
        src = self.lget(p)
        if src[0] == "L":
            if follow:
                s = self.get(p)
                if s is None:
                    raise Refused()
                phys = self.locate(p, follow=True)
                dq = self.target(q)
                if dq is not None and (dq[: len(phys)] == phys or phys[: len(dq)] == dq):
                    raise IntoSelf
                new = _copy.deepcopy(s)
            else:
                d = self.linkdest(p)
                if self.h5:
                    new = ("L", h5text(q, d))
                else:
                    new = ("L", rel(q, d))
                s = None
        else:
            new = _copy.deepcopy(src)
            s = src
        if deref and s is not None and s[0] == "D":
            new = self.expand(self.locate(p, follow=True), self.target(q))
        if replaced:
            self.delete(q)
            if self.lget(p) is None or (src[0] == "L" and follow and self.get(p) is None):
                raise IntoSelf
        self.makedirs(q[:-1])
        self.put(q, new)
        if self.h5 and s is not None and not deref:
            self.relink(q, p, q)
        return q

    def expand(self, loc, dest, seen=()):
        """without links"""
        node = self.raw(loc)
        if loc[: len(dest)] == dest or dest[: len(loc)] == loc:
            raise Undefined  # the destination is part of what is copied
        if node[0] == "L":
            d = self.locate(loc, follow=True)
            if d is None or self.raw(d) is None:
                raise Undefined
            return self.expand(d, dest, seen)
        if node[0] == "D":
            if loc in seen:
                raise Undefined  # endless
            return ("D", {k: self.expand(loc + (k,), dest, seen + (loc,)) for k in node[1]})
        return node

    def relink(self, top, src, dst):
        """links below top that point below src now point below dst"""
        loc = self.locate(top)

        def walk(path, node):
            if node[0] == "D":
                for k, v in list(node[1].items()):
                    if v[0] == "L":
                        d = self.linkdest(path + (k,))
                        if d[: len(src)] == src:
                            node[1][k] = ("L", h5text(path + (k,), dst + d[len(src) :]))
                    else:
                        walk(path + (k,), v)

        walk(loc, self.raw(loc))

    def op_move(self, p, q, force, rename):
        q, replaced = self.prepare(p, q, force, rename)
        n = self.lget(p)
        src = self.locate(p)
        self.makedirs(q[:-1])
        if replaced:
            self.delete(q)
        dq = self.locate(q)
        self.put(q, _copy.deepcopy(n))
        del self.raw(src[:-1])[1][src[-1]]
        if self.h5:
            if n[0] == "L":
                d = self.linkdest(dq)
                if d[: len(p)] == p:
                    raise Undefined
            else:
                self.relink(dq, p, q)
        return q

    def op_link(self, p, q, soft):
        if self.lget(p) is not None:
            raise Refused()
        if not self.isdir(p[:-1]):
            raise Refused()
        if soft:
            self.put(p, ("L", h5text(p, q) if self.h5 else rel(p, q)))
        else:
            n = self.lget(q) if not self.h5 else self.get(q)
            if n is None:
                raise Refused()
            if n[0] == "D":
                if not self.h5:
                    raise Refused()
                lq, lp = self.locate(q, follow=True), self.locate(p)
                if lp[: len(lq)] == lq:
                    raise Undefined
            if n[0] == "L":
                raise Undefined
            self.put(p, _copy.deepcopy(n))
        return p


class Undefined(Exception):
    """no requirement (not executed)"""


class Same(Exception):
    """refused or done, but no content may be lost"""


class IntoSelf(Exception):
    """refused and unchanged, or the content of the source still exists"""


def norm(parts):
    out = []
    for x in parts:
        if x == "..":
            if out:
                out.pop()
        elif x != ".":
            out.append(x)
    return tuple(out)


def rel(link, dest):
    """relative text of a link at path link to path dest"""
    return os.path.relpath("/" + "/".join(dest), "/" + "/".join(link[:-1]))


def h5text(link, dest):
    t = rel(link, dest)
    if ".." in t:
        return "/" + "/".join(dest)
    return t


def canon(node, path=()):
    """hashable form; links by lexical destination"""
    if node[0] == "D":
        return ("D", tuple((k, canon(v, path + (k,))) for k, v in sorted(node[1].items())))
    if node[0] == "L":
        t = node[1]
        d = norm(split(t)) if t.startswith("/") else norm(path[:-1] + split(t))
        return ("L", "/".join(d))
    return node


def show(c, pre=""):
    if c[0] == "D":
        return "{" + ", ".join("%s: %s" % (k, show(v)) for k, v in c[1]) + "}"
    if c[0] == "L":
        return "->%s" % c[1]
    return "file %s" % (c[1],)


# ---------------------------------------------------------------- states


def kinds(h5, other):
    """the entries a top-level name can have"""
    up = "/" if h5 else ".."
    ref = ("/" + other) if h5 else ("../" + other)
    F = ("F", 1)
    lst = [
        None,
        F,
        ("D", {}),
        ("D", {"x": ("F", 2)}),
        ("D", {"x": ("D", {"z": ("F", 3)})}),
        ("D", {"x": ("F", 4), "y": ("L", "x")}),
        ("D", {"x": ("L", ref)}),
        ("L", other),
        ("L", other + "/x"),
        ("L", "nix"),
        ("D", {"x": ("L", up)}),
    ]
    return lst


def states(h5):
    out = []
    for i, a in enumerate(kinds(h5, "b")):
        for j, b in enumerate(kinds(h5, "a")):
            if j == 10 and i not in (0, 3):
                continue
            tree = {}
            if a is not None:
                tree["a"] = _copy.deepcopy(a)
            if b is not None:
                b = _copy.deepcopy(b)
                if b[0] == "F":
                    b = ("F", 5)
                tree["b"] = b
            out.append(("D", tree))
    # absolute inner links: must follow a copied or moved directory
    if h5:
        out.append(("D", {"a": ("D", {"d": ("D", {"l": ("L", "/a/x"), "m": ("L", "/b")}), "x": ("F", 6)}), "b": ("F", 7)}))
        out.append(("D", {"a": ("D", {"d": ("D", {"l": ("L", "/a")}), "x": ("F", 6)})}))
    else:
        out.append(("D", {"a": ("D", {"d": ("D", {"l": ("L", "../x"), "m": ("L", "../../b")}), "x": ("F", 6)}), "b": ("F", 7)}))
    return out


PATHS = ["a", "b", "c", "a/x", "b/x", "c/x", "a/x/z"]
OBS = PATHS + ["", "a/y", "b/y", "b/x/z", "a/x/x", "a/d/l", "c/d/l"]


def operations(tier):
    ops = []
    P = [split(p) for p in PATHS]
    for p in P:
        for r in (False, True):
            ops.append(("remove", p, r))
            for f in (False, True):
                ops.append(("mkdir", p, r, f))
        ops.append(("write", p, 9))
    for p, q in itertools.product(P, P):
        if len(p) == 3 or len(q) == 3:
            if not (len(p) == 3 and len(q) == 1 or len(p) == 1 and len(q) == 3):
                continue
        for force in (False, True):
            for follow, deref in [(False, False), (True, False), (True, True)]:
                ops.append(("copy", p, q, force, follow, deref))
            for rename in (False, True):
                ops.append(("move", p, q, force, rename))
        if p != q:
            for soft in (True, False):
                ops.append(("link", p, q, soft))
    return ops


CORE = [
    ("mkdir", ("a",), True, True),
    ("mkdir", ("c", "x"), True, True),
    ("mkdir", ("c", "x"), False, True),
    ("write", ("a", "x"), 9),
    ("write", ("b",), 8),
    ("remove", ("a",), False),
    ("remove", ("a",), True),
    ("remove", ("b", "x"), True),
    ("copy", ("a",), ("c",), False, False, False),
    ("copy", ("a",), ("b",), True, True, False),
    ("copy", ("b",), ("c", "x"), False, True, True),
    ("copy", ("a", "x"), ("b",), True, False, False),
    ("move", ("a",), ("c",), False, False),
    ("move", ("a",), ("b",), True, True),
    ("move", ("a",), ("b",), False, False),
    ("move", ("b",), ("a", "x"), True, True),
    ("move", ("a", "x"), ("c", "x"), False, True),
    ("link", ("c",), ("a",), True),
    ("link", ("a", "y"), ("a", "x"), True),
    ("link", ("c",), ("b", "x"), True),
    ("link", ("b", "y"), ("a", "x"), True),
]

# ---------------------------------------------------------------- backends


class Local:
    name = "local"
    h5 = False

    def __init__(self, scratch):
        self.top = os.path.join(scratch, "t")

    def build(self, root):
        if os.path.lexists(self.top):
            shutil.rmtree(self.top)
        self.fill(self.top, root)

    def fill(self, d, node):
        os.mkdir(d)
        for k, v in node[1].items():
            p = d + "/" + k
            if v[0] == "F":
                with open(p, "w") as f:
                    f.write(str(v[1]))
            elif v[0] == "L":
                os.symlink(v[1], p)
            else:
                self.fill(p, v)

    def scan(self):
        if not os.path.isdir(self.top):
            return ("?", "root directory is gone")
        return self._scan(self.top)

    def _scan(self, d):
        out = {}
        for k in os.listdir(d):
            p = d + "/" + k
            if os.path.islink(p):
                out[k] = ("L", os.readlink(p))
            elif os.path.isdir(p):
                out[k] = self._scan(p)
            else:
                with open(p) as f:
                    s = f.read()
                out[k] = ("F", int(s) if s.lstrip("-").isdigit() else s)
        return ("D", out)

    def path(self, parts, **kw):
        p = localfs.Path(self.top, **kw)
        return p["/".join(parts)] if parts else p

    def parts(self, path):
        s = str(path)
        if s == self.top:
            return ()
        if not s.startswith(self.top + "/"):
            return ("outside", s)
        return tuple(s[len(self.top) + 1 :].split("/"))

    def write(self, path, content):
        return self.path(self.parts(path), mode="w").write(str(content))

    def read(self, path):
        s = path.read()
        return int(s) if s.lstrip("-").isdigit() else s


class H5:
    name = "h5"
    h5 = True
    cls = h5fs.Path

    def __init__(self, scratch):
        self.file = os.path.join(scratch, "t.h5")
        self.cache = {}

    def build(self, root):
        key = canon(root)
        data = self.cache.get(key)
        if data is None:
            if os.path.exists(self.file):
                os.remove(self.file)
            with h5py.File(self.file, "w") as f:
                self.fill(f, root)
            with open(self.file, "rb") as f:
                data = f.read()
            if len(self.cache) < 500:
                self.cache[key] = data
            return
        with open(self.file, "wb") as f:
            f.write(data)

    def fill(self, g, node):
        for k, v in node[1].items():
            if v[0] == "F":
                g[k] = v[1]
            elif v[0] == "L":
                g[k] = h5py.SoftLink(v[1])
            else:
                self.fill(g.create_group(k), v)

    def scan(self):
        if not os.path.exists(self.file):
            return ("?", "file is gone")
        with h5py.File(self.file, "r") as f:
            return self._scan(f)

    def _scan(self, g, depth=0):
        out = {}
        if depth > 8:
            return ("?", "endless")
        for k in g.keys():
            lnk = g.get(k, getlink=True)
            if isinstance(lnk, h5py.SoftLink):
                out[k] = ("L", lnk.path)
            elif isinstance(lnk, h5py.ExternalLink):
                out[k] = ("L", lnk.filename + "::" + lnk.path)
            else:
                n = g[k]
                if isinstance(n, h5py.Group):
                    out[k] = self._scan(n, depth + 1)
                else:
                    out[k] = ("F", n[()].item() if n.shape == () and n.dtype.kind in "if" else repr(n[()]))
        return ("D", out)

    def path(self, parts):
        return self.cls("/" + "/".join(parts), h5file=self.file)

    def parts(self, path):
        s = str(path)
        pre = self.file + "::"
        if not s.startswith(pre):
            return ("outside", s)
        return split(s[len(pre) :])

    def write(self, path, content):
        return path.write(data=content, mode="w")

    def read(self, path):
        return path.read().item()


class NX(H5):
    name = "nx"
    cls = nxfs.Path


BACKENDS = {c.name: c for c in (Local, H5, NX)}


# ---------------------------------------------------------------- observations


def observe(be, m, parts):
    """list of (what, got, expected)"""
    out = []
    p = be.path(parts)
    n, ln = m.get(parts), m.lget(parts)
    out.append(("exists", bool(p.exists), n is not None))
    out.append(("lexists", bool(p.lexists), ln is not None))
    out.append(("isdir", bool(p.isdir), n is not None and n[0] == "D"))
    out.append(("isfile", bool(p.isfile), n is not None and n[0] == "F"))
    out.append(("islink", bool(p.islink), ln is not None and ln[0] == "L"))
    d = p.linkdest()
    out.append(("linkdest", None if d is None else be.parts(d), m.linkdest(parts)))
    exp = m.linkend(parts)
    if exp != "loop":
        d = p.linkdest(follow=True)
        out.append(("linkdest(follow)", None if d is None else be.parts(d), exp))
    if n is not None and n[0] == "D":
        exp = sorted(n[1])
        out.append(("listdir", sorted(be.parts(x)[-1] for x in p.listdir()), exp))
        out.append(("iter", sorted(be.parts(x) for x in p), [parts + (k,) for k in exp]))
        for k in ("x", "y", "nix"):
            out.append(("%r in" % k, k in p, m.get(parts + (k,)) is not None))
        if not parts or ln[0] == "D":
            got = sorted(be.parts(x) for x in p.find("x"))
            got = sorted(be.parts(x) for x in p.find("x"))
            out.append(("find", got, [parts + (k,) for k in exp if k.startswith("x")]))
            got = sorted(be.parts(x) for x in p.find(lambda q: q.name in ("x", "z"), recursive=True))
            out.append(("find(recursive)", got, sorted(m.find(parts, n))))
        t = p.tree(recursive=False)
        out.append(("tree", [be.parts(x)[-1] for x, _ in t[1]], exp))
    else:
        out.append(("listdir", list(p.listdir()), []))
    try:
        got = be.read(p) if n is None or n[0] == "F" or not be.h5 else None
    except Exception as e:
        got = type(e)
    if n is None:
        out.append(("read", isinstance(got, type) and issubclass(got, fs.Missing) or (ln is None or True) and isinstance(got, type) and issubclass(got, ERRORS), True))
    elif n[0] == "F":
        out.append(("read", got, n[1]))
    elif not be.h5:
        out.append(("read", isinstance(got, type) and issubclass(got, fs.NotAFile), True))
    return out


def apply_lib(be, op):
    kind = op[0]
    p = be.path(op[1])
    if kind == "mkdir":
        return p.mkdir(recursive=op[2], force=op[3])
    if kind == "write":
        return be.write(p, op[2])
    if kind == "remove":
        return p.remove(recursive=op[2])
    q = be.path(op[2])
    if kind == "copy":
        return p.copy(q, force=op[3], follow=op[4], dereference=op[5])
    if kind == "move":
        if op[4]:
            return p.rename(q, force=op[3])
        return p.move(q, force=op[3])
    if kind == "link":
        return p.link(q, soft=op[3])


def apply_model(m, op):
    return getattr(m, "op_" + op[0])(*op[1:])


def opname(op):
    names = {
        "mkdir": ["", "recursive", "force"],
        "write": ["", ""],
        "remove": ["", "recursive"],
        "copy": ["", "", "force", "follow", "dereference"],
        "move": ["", "", "force", "rename"],
        "link": ["", "", "soft"],
    }[op[0]]
    args = []
    for n, v in zip(names, op[1:]):
        args.append(("%s=%s" % (n, v)) if n else ("/".join(v) if isinstance(v, tuple) else repr(v)))
    return "%s(%s)" % (op[0], ", ".join(args))


def contents(c, seen=None):
    """multiset of file contents of a canonical tree"""
    if c[0] == "D":
        out = []
        for _, v in c[1]:
            out += contents(v)
        return out
    return [c[1]] if c[0] == "F" else []


def step(be, m, op):
    """Apply op to model and library (the tree is already built), return error text or None and the new model or None"""
    before = canon(m.root)
    new = m.clone()
    mode, kinds_, ret = "ok", None, None
    try:
        ret = apply_model(new, op)
    except Refused as e:
        mode, kinds_, new = "refused", e.kinds, m
    except Undefined:
        mode = "undefined"
    except Same:
        mode = "same"
    except IntoSelf:
        mode = "intoself"
    if mode == "undefined":
        return None, None, mode
    exc = got = None
    try:
        got = apply_lib(be, op)
    except RecursionError as e:
        exc = e
        return "endless recursion (%r)" % e, None, mode
    except ERRORS as e:
        exc = e
    except shutil.Error as e:
        exc = e
    tree = be.scan()
    if tree[0] == "?":
        return tree[1], None, mode
    after = canon(tree)
    if mode in ("same", "intoself"):
        if exc is not None and after != before:
            return "refused with %r but the tree changed to %s" % (exc, show(after)), None, mode
        lost = [x for x in set(contents(before)) if x not in contents(after)]
        if mode == "intoself" and lost or (mode == "same" and exc is None and op[0] == "copy" and lost):
            return "the contents of files %s are lost: %s" % (lost, show(after)), None, mode
        if mode == "same" and lost:
            # moving something over its own ancestor: the moved content must survive
            src = m.get(op[1])
            keep = contents(canon(src)) if src else []
            if any(x not in contents(after) for x in keep):
                return "the moved content is lost: %s" % show(after), None, mode
        return None, None, mode
    if mode == "refused":
        if exc is None:
            return "not refused (%s expected), tree is %s" % ("/".join(k.__name__ for k in kinds_), show(after)), None, mode
        if not isinstance(exc, kinds_):
            return "refused with %r instead of %s" % (exc, "/".join(k.__name__ for k in kinds_)), None, mode
        if after != before:
            return "refused with %r but the tree changed to %s" % (exc, show(after)), None, mode
        return None, m, mode
    if exc is not None:
        return "raises %r, expected tree %s" % (exc, show(canon(new.root))), None, mode
    if after != canon(new.root):
        return "tree is %s, expected %s" % (show(after), show(canon(new.root))), None, mode
    if ret is not None and got is not None and be.parts(got) != ret:
        return "returns %s, expected %s" % (got, "/".join(ret)), None, mode
    # the model keeps the actual link texts (same destinations)
    return None, Model(tree, be.h5), mode


def check_obs(be, m, ctx, label, extra=""):
    for o in OBS:
        parts = split(o)
        try:
            res = observe(be, m, parts)
        except ERRORS + (RecursionError,) as e:
            res = [("observation", "raises %r" % e, "no exception")]
        for what, got, exp in res:
            ctx.tick()
            if got != exp:
                ctx.fail(
                    "%s:observe:%s:%s:%s%s" % (be.name, what, o, label, extra),
                    {"kind": "obs", "be": be.name, "label": label},
                    "%s of %r is %r, expected %r on tree %s %s" % (what, o, got, exp, show(canon(m.root)), extra),
                )


def do_state(be, root, ops, ctx):
    m = Model(root, be.h5)
    label = show(canon(root))
    ctx.current = label
    be.build(root)
    ctx.state((be.name, canon(root)))
    check_obs(be, m, ctx, label)
    if canon(be.scan()) != canon(root):
        ctx.fail("%s:observing:%s" % (be.name, label), {"be": be.name}, "observing changed the tree %s" % label)
    for op in ops:
        do_op(be, m, op, ctx, label)


def do_op(be, m, op, ctx, label):
    be.build(m.root)
    ctx.current = (be.name, label, op)
    err, new, mode = step(be, m, op)
    ctx.trans()
    ctx.trace()
    ctx.outcome("%s:%s" % (op[0], mode))
    if new is not None:
        ctx.state((be.name, canon(new.root)))
    if err:
        ctx.fail(
            "%s:%s:%s" % (be.name, opname(op), label),
            {"kind": "op", "be": be.name, "tree": m.root, "op": op},
            "%s on %s tree %s: %s" % (opname(op), be.name, label, err),
        )
    return new if not err else None


def do_seq(be, root, seq, ctx):
    """A sequence executed on one tree without rebuilding, observed at the end"""
    be.build(root)
    m = Model(root, be.h5)
    label = show(canon(root))
    names = " ; ".join(opname(o) for o in seq)
    ctx.current = (be.name, label, names)
    for op in seq:
        err, m, mode = step(be, m, op)
        ctx.trans()
        if err:
            ctx.fail(
                "%s:%s:%s" % (be.name, names, label),
                {"kind": "seq", "be": be.name, "tree": root, "seq": seq},
                "%s on %s tree %s, at %s: %s" % (names, be.name, label, opname(op), err),
            )
            return
        if m is None:
            return
    ctx.trace()
    ctx.state((be.name, canon(m.root)))
    check_obs(be, m, ctx, label, " after " + names)
    ctx.sample({"backend": be.name, "tree": label, "operations": names, "result": show(canon(m.root))})


# ---------------------------------------------------------------- two HDF5 files


def trees2():
    F = ("F", 1)
    srcs = [
        ("D", {"a": F}),
        ("D", {"a": ("D", {})}),
        ("D", {"a": ("D", {"x": ("F", 2), "d": ("D", {"z": ("F", 3)})})}),
        ("D", {"a": ("D", {"x": ("F", 2), "l": ("L", "x"), "d": ("D", {"m": ("L", "/a/x")})})}),
    ]
    dsts = [("D", {}), ("D", {"b": ("F", 7)}), ("D", {"b": ("D", {"a": ("F", 8)})})]
    return list(itertools.product(range(4), range(3))), srcs, dsts


def do_pair(be_name, i, j, ctx):
    _, srcs, dsts = trees2()
    cls = BACKENDS[be_name]
    sdir = os.path.join(ctx.scratch, "p")
    for d in ("1", "2"):
        os.makedirs(os.path.join(sdir, d), exist_ok=True)
    one, two = cls(os.path.join(sdir, "1")), cls(os.path.join(sdir, "2"))
    src, dst = srcs[i], dsts[j]
    for op, q, force in itertools.product(("copy", "move", "rename"), ("b", "b/c", "n/m"), (False, True)):
        one.build(src)
        two.build(dst)
        label = "%s | %s" % (show(canon(src)), show(canon(dst)))
        ctx.current = (be_name, op, q, force, label)
        # model: the node moves from one tree into the other
        qq = split(q)
        m2 = Model(_copy.deepcopy(dst), be_name != "local")
        refused = None
        if m2.isdir(qq) and op != "rename":
            qq = qq + ("a",)
        if m2.get(qq) is not None and not force:
            refused = fs.AlreadyExists
        else:
            try:
                if m2.get(qq) is not None:
                    m2.delete(qq)
                m2.makedirs(qq[:-1])
                m2.put(qq, _copy.deepcopy(src[1]["a"]))
                if m2.h5:
                    m2.relink(qq, ("a",), qq)
            except Refused:
                refused = ERRORS
        e1 = canon(src) if refused or op == "copy" else ("D", ())
        e2 = canon(dst) if refused else canon(m2.root)
        err = None
        try:
            p, d = one.path(("a",)), two.path(split(q))
            getattr(p, op)(d, force=force)
        except ERRORS as e:
            if not refused:
                err = "raises %r" % e
            elif not isinstance(e, refused):
                err = "refused with %r" % e
        else:
            if refused:
                err = "not refused"
        ctx.trans()
        ctx.trace()
        if not err:
            g1, g2 = canon(one.scan()), canon(two.scan())
            ctx.state((be_name, "pair", g1, g2))
            if g1 != e1:
                err = "source tree is %s, expected %s" % (show(g1), show(e1))
            elif g2 != e2:
                err = "destination tree is %s, expected %s" % (show(g2), show(e2))
        if err:
            ctx.fail(
                "pair:%s:%s:%s:%s:%s" % (be_name, op, q, force, label),
                {"kind": "pair", "be": be_name, "i": i, "j": j},
                "%s a to other:%s (force=%s) with trees %s: %s" % (op, q, force, label, err),
            )
    if be_name != "local":
        external(one, two, src, dst, be_name, i, j, ctx)


def external(one, two, src, dst, be_name, i, j, ctx):
    """external links are seen through"""
    one.build(src)
    two.build(dst)
    m = Model(src, True)
    lnk = two.path(("ext",))
    lnk.link(one.path(("a",)))
    n = m.get(("a",))
    checks = [
        ("exists", lnk.exists, True),
        ("isdir", lnk.isdir, n[0] == "D"),
        ("isfile", lnk.isfile, n[0] == "F"),
        ("islink", lnk.islink, True),
        ("linkdest", str(lnk.linkdest()), str(one.path(("a",)))),
        ("listdir", sorted(x.name for x in lnk.listdir()), sorted(n[1]) if n[0] == "D" else []),
    ]
    if n[0] == "F":
        checks.append(("read", two.read(lnk), n[1]))
    elif "x" in n[1]:
        checks.append(("read below", two.read(lnk["x"]), 2))
    for f in (False, True):
        two.build(dst)
        lnk = two.path(("ext",)).link(one.path(("a",)))
        lnk.copy(two.path(("new",)), follow=f)
        exp = _copy.deepcopy(dst)
        exp[1]["ext"] = ("L", one.file + "::/a")
        if f:
            exp[1]["new"] = src[1]["a"]
            got = be_tree(two.scan())
            e = Model(_copy.deepcopy(exp), True)
            checks.append(("copy(follow)", strip(got), strip(exp)))
        else:
            exp[1]["new"] = exp[1]["ext"]
            checks.append(("copy", two.scan(), exp))
    two.build(dst)
    lnk = two.path(("ext",)).link(one.path(("a",)))
    lnk.remove()
    checks.append(("remove link", (two.scan(), one.scan()), (dst, src)))
    lnk = two.path(("ext",)).link(one.path(("a",)))
    lnk.remove(recursive=True)
    checks.append(("remove recursive", (two.scan(), one.scan()), (dst, ("D", {}))))
    for what, got, exp in checks:
        ctx.tick()
        if got != exp:
            ctx.fail(
                "external:%s:%s:%s:%s" % (be_name, what, i, j),
                {"kind": "pair", "be": be_name, "i": i, "j": j},
                "external link to %s: %s is %s, expected %s" % (show(canon(src)), what, got, exp),
            )


def be_tree(t):
    return t


def strip(t):
    """without the text of links (an absolute link inside the target keeps its text)"""
    if t[0] == "D":
        return ("D", {k: strip(v) for k, v in t[1].items()})
    if t[0] == "L":
        return ("L",)
    return t


# ---------------------------------------------------------------- check


def seqroots(h5):
    st = states(h5)
    pick = [0, 15, 34, 45, 58, len(st) - 1]
    return [i for i in pick if i < len(st)]


def shards(tier):
    out = []
    thorough = tier == "thorough"
    for be in ("local", "h5", "nx") if thorough else ("local", "h5"):
        h5 = be != "local"
        n = len(states(h5))
        for i in range(n):
            out.append({"kind": "state", "be": be, "i": i})
        if thorough:
            for i in range(n):
                out.append({"kind": "seq", "be": be, "i": i, "depth": 2})
        for i in seqroots(h5):
            for j in range(len(CORE)):
                out.append({"kind": "seq", "be": be, "i": i, "depth": 3 if thorough else 2, "first": j})
    for be in ("local", "h5", "nx"):
        pairs, _, _ = trees2()
        for i, j in pairs:
            out.append({"kind": "pair", "be": be, "i": i, "j": j})
    return out


def run_shard(s, ctx):
    if s["kind"] == "pair":
        return do_pair(s["be"], s["i"], s["j"], ctx)
    be = BACKENDS[s["be"]](ctx.scratch)
    root = states(be.h5)[s["i"]]
    if s["kind"] == "state":
        do_state(be, root, operations(ctx.tier), ctx)
    else:
        firsts = [CORE[s["first"]]] if "first" in s else CORE
        for first in firsts:
            for rest in itertools.product(CORE, repeat=s["depth"] - 1):
                do_seq(be, root, (first,) + rest, ctx)


def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    if isinstance(x, dict):
        return {k: tup(v) for k, v in x.items()}
    return x


def replay(case, ctx):
    case = tup(case)
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if case["kind"] == "pair":
        return do_pair(case["be"], case["i"], case["j"], ctx)
    be = BACKENDS[case["be"]](ctx.scratch)
    if case["kind"] == "op":
        m = Model(case["tree"], be.h5)
        do_op(be, m, case["op"], ctx, show(canon(m.root)))
    elif case["kind"] == "seq":
        do_seq(be, case["tree"], case["seq"], ctx)
    else:
        for root in states(be.h5):
            if show(canon(root)) == case["label"]:
                do_state(be, root, [], ctx)
