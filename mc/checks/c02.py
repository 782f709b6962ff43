"""C02: the complete matrix of default mode, requested mode and prior state."""

import builtins
import itertools
import os
import shutil

import h5py
import numpy as np

from spectrocrunch.io import fs, h5fs, localfs

LEVEL = "model_checking"
BOUNDS = {
    "quick": "local files: 8 default modes x 9 requests x 8 prior states, and every pair of successive requests; HDF5 files: 6 x 7 x 5 and every pair; HDF5 items: 6 default modes x 7 requests x 4 creation parameters x 9 prior states; every modifying operation on read-only paths",
    "thorough": "as quick with triples of successive requests",
}
ASSUMPTIONS = ["the oracle for a single open is the built-in open / h5py.File with the effective mode"]

LMODES = ["r", "r+", "w", "w+", "x", "x+", "a", "a+"]
HMODES = ["r", "r+", "w", "x", "w-", "a"]
REFUSED = (fs.FileSystemException, OSError)
HREFUSED = REFUSED + (ValueError, TypeError, KeyError, RuntimeError)


def leffective(default, req):
    """Documented restriction of the requested mode by the default mode"""
    if req is None or default == "r":
        return default
    allowed = {
        "r+": ["r", "r+"],
        "w": ["r", "w", "w+"],
        "x": ["r", "x", "x+"],
        "a": ["r", "r+", "a", "a+"],
    }[default if default == "r+" else default[0]]
    return req if req in allowed else default


def heffective(default, req):
    if default == "w-":
        default = "x"
    if req is None or default == "r":
        return default
    allowed = {
        "r+": ["r", "r+"],
        "w": ["r", "w", "a"],
        "x": ["r", "x", "w-"],
        "a": ["r", "a"],
    }[default]
    return req if req in allowed else default


# ---------------------------------------------------------------- local files

LSTATES = ["missing", "text", "empty", "dir", "link", "broken", "noparent", "unreadable"]


def lbuild(d, state):
    if os.path.lexists(d):
        shutil.rmtree(d)
    os.mkdir(d)
    f = d + "/f"
    if state == "text":
        with open(f, "w") as h:
            h.write("abcd")
    elif state == "empty":
        open(f, "w").close()
    elif state == "dir":
        os.mkdir(f)
    elif state == "link":
        with open(d + "/g", "w") as h:
            h.write("efgh")
        os.symlink("g", f)
    elif state == "broken":
        os.symlink("nix", f)
    elif state == "noparent":
        f = d + "/p/f"
    elif state == "unreadable":
        with open(f, "w") as h:
            h.write("ijkl")
        os.chmod(f, 0o444)
    return f


def lsnap(d):
    out = {}
    for k in sorted(os.listdir(d)):
        p = d + "/" + k
        if os.path.islink(p):
            out[k] = "->" + os.readlink(p)
        elif os.path.isdir(p):
            out[k] = "dir"
        else:
            with open(p) as h:
                out[k] = h.read()
    return out


def use(f):
    """What can be done with an open file"""
    out = []
    try:
        out.append(("tell", f.tell()))
    except Exception as e:
        out.append(type(e).__name__)
    try:
        out.append(("read", f.read()))
    except Exception as e:
        out.append(type(e).__name__)
    try:
        out.append(("write", f.write("Z")))
    except Exception as e:
        out.append(type(e).__name__)
    return out


def lrun(opener):
    try:
        with opener() as f:
            out = use(f)
        return out
    except fs.FileSystemException as e:
        return ("refused", type(e).__name__)
    except OSError as e:
        return ("refused", e.errno)


def lcompare(a, b, path):
    """a: library, b: builtin"""
    if isinstance(b, tuple):
        if not isinstance(a, tuple):
            return "not refused"
        if b[1] == 2 and a[1] != "Missing":
            return "refused as %s instead of Missing" % a[1]
        if b[1] == 21 and a[1] != "NotAFile":
            return "refused as %s instead of NotAFile" % a[1]
        return None
    return None if a == b else "gives %s, expected %s" % (a, b)


def local(default, reqs, state, ctx):
    d = os.path.join(ctx.scratch, "l")
    e = os.path.join(ctx.scratch, "e")
    f, g = lbuild(d, state), lbuild(e, state)
    label = "%s:%s:%s" % (default, ",".join(map(str, reqs)), state)
    ctx.current = label
    p = localfs.Path(f, mode=default)
    for req in reqs:
        before = lsnap(d)
        kw = {} if req is None else {"mode": req}
        got = lrun(lambda: p.open(**kw))
        eff = leffective(default, req)
        exp = lrun(lambda: builtins.open(g, mode=eff))
        ctx.trans()
        ctx.trace()
        s = lsnap(d)
        ctx.state((default, req, sorted(s.items())))
        ctx.outcome(got if isinstance(got, tuple) else "opened " + eff)
        err = lcompare(got, exp, f)
        if not err and s != lsnap(e):
            err = "leaves %s, expected %s" % (s, lsnap(e))
        if not err and default == "r" and s != before:
            err = "read-only path changed %s to %s" % (before, s)
        if err:
            ctx.fail("local:" + label, {"f": "local", "a": [default, reqs, state]}, "local path with default mode %r, successive requests %s on %s file, at %s: %s" % (default, reqs, state, req, err))
            return
    if len(reqs) == 1 and reqs[0] is None:
        # conveniences with their own request
        for what in ("read", "write", "mkfile", "readonly"):
            f = lbuild(d, state)
            g = lbuild(e, state)
            p = localfs.Path(f, mode=default)
            if what == "read":
                got = lcall(p.read)
                exp = lcall(lambda: rd(g, leffective(default, "r")))
            elif what == "write":
                got = lcall(lambda: p.write("YY") and None)
                exp = lcall(lambda: wr(g, default, "YY"))
            elif what == "mkfile":
                got = lcall(lambda: p.mkfile(data="XX") and None)
                exp = lcall(lambda: wr(g, default, "XX"))
            else:
                got = lcall(lambda: p.readonly().write("W") and None)
                exp = lcall(lambda: wr(g, "r", "W"))
            err = None
            if isinstance(exp, tuple) != isinstance(got, tuple) or (not isinstance(exp, tuple) and got != exp):
                err = "%s gives %r, expected %r" % (what, got, exp)
            elif lsnap(d) != lsnap(e):
                err = "%s leaves %s, expected %s" % (what, lsnap(d), lsnap(e))
            ctx.trans()
            if err:
                ctx.fail("local:%s:%s" % (what, label), {"f": "local", "a": [default, reqs, state]}, "local path with default mode %r on %s file: %s" % (default, state, err))
        # nested opening gives the open file
        f = lbuild(d, state)
        p = localfs.Path(f, mode=default)
        try:
            with p.open() as h:
                for r in LMODES:
                    with p.open(mode=r) as h2:
                        if h2 is not h:
                            ctx.fail("local:nested:%s:%s" % (r, label), {"f": "local", "a": [default, reqs, state]}, "nested open gives another file")
                    if h.closed:
                        ctx.fail("local:nestedclose:%s:%s" % (r, label), {"f": "local", "a": [default, reqs, state]}, "nested open closes the file")
                        break
            if not h.closed:
                ctx.fail("local:notclosed:%s" % label, {"f": "local", "a": [default, reqs, state]}, "file is not closed")
        except REFUSED:
            pass


def lcall(func):
    try:
        return func()
    except (fs.FileSystemException, OSError) as e:
        return ("refused", type(e).__name__)


def rd(f, mode):
    with builtins.open(f, mode) as h:
        return h.read()


def wr(f, mode, txt):
    with builtins.open(f, mode) as h:
        h.write(txt)


# ---------------------------------------------------------------- HDF5 files

HSTATES = ["missing", "file", "garbage", "dir", "noparent"]


def hbuild(d, state):
    if os.path.lexists(d):
        shutil.rmtree(d)
    os.mkdir(d)
    f = d + "/f.h5"
    if state == "file":
        with h5py.File(f, "w") as h:
            h["x"] = 1
    elif state == "garbage":
        with open(f, "w") as h:
            h.write("not HDF5")
    elif state == "dir":
        os.mkdir(f)
    elif state == "noparent":
        f = d + "/p/f.h5"
    return f


def hscan(h, path="/"):
    out = {}
    for k in h.keys():
        lnk = h.get(k, getlink=True)
        if isinstance(lnk, h5py.SoftLink):
            out[k] = "->" + lnk.path
            continue
        n = h[k]
        attrs = sorted((a, str(v)) for a, v in n.attrs.items())
        if isinstance(n, h5py.Group):
            out[k] = ("group", tuple(sorted(hscan(n).items())), tuple(attrs))
        else:
            out[k] = (np.asarray(n[()]).tolist(), tuple(attrs))
    return out


def hsnap(d):
    out = {}
    for k in sorted(os.listdir(d)):
        p = d + "/" + k
        if os.path.isdir(p):
            out[k] = "dir"
        else:
            try:
                with h5py.File(p, "r") as h:
                    out[k] = hscan(h)
            except OSError:
                with open(p, "rb") as h:
                    out[k] = h.read()
    return out


def huse(f, i):
    out = [sorted(f.keys())]
    try:
        f.create_group("n%d" % i)
        out.append("written")
    except Exception as e:
        out.append("not writable")
    return out


def hdevice(default, reqs, state, ctx):
    d = os.path.join(ctx.scratch, "l")
    e = os.path.join(ctx.scratch, "e")
    f, g = hbuild(d, state), hbuild(e, state)
    label = "%s:%s:%s" % (default, ",".join(map(str, reqs)), state)
    ctx.current = label
    p = h5fs.h5Device(f, mode=default)
    for i, req in enumerate(reqs):
        before = hsnap(d)
        kw = {} if req is None else {"mode": req}
        try:
            with p.open(**kw) as h:
                got = huse(h, i)
        except REFUSED as err:
            got = ("refused", err)
        try:
            with h5py.File(g, heffective(default, req)) as h:
                exp = huse(h, i)
        except OSError as err:
            exp = ("refused", err)
        ctx.trans()
        ctx.trace()
        s = hsnap(d)
        ctx.state((default, req, repr(s)))
        ctx.outcome("device " + (got[0] if isinstance(got, tuple) else "opened"))
        err = None
        if isinstance(exp, tuple):
            if not isinstance(got, tuple):
                err = "not refused"
            elif state in ("missing", "noparent") and isinstance(exp[1], FileNotFoundError) and not isinstance(got[1], fs.Missing):
                err = "refused with %r instead of Missing" % got[1]
            elif isinstance(exp[1], IsADirectoryError) and not isinstance(got[1], fs.NotAFile):
                err = "refused with %r instead of NotAFile" % got[1]
            elif s != before:
                err = "refused but changed %s to %s" % (before, s)
        elif got != exp:
            err = "gives %s, expected %s" % (got, exp)
        if not err and s != hsnap(e):
            err = "leaves %s, expected %s" % (s, hsnap(e))
        if not err and default == "r" and s != before:
            err = "read-only path changed %s to %s" % (before, s)
        if err:
            ctx.fail("device:" + label, {"f": "hdevice", "a": [default, reqs, state]}, "HDF5 file with default mode %r, successive requests %s on %s, at %s: %s" % (default, reqs, state, req, err))
            return


# ---------------------------------------------------------------- HDF5 items

NSTATES = ["nofile", "empty", "data", "group", "groupwith", "noparent", "fileparent", "link", "broken"]
CREATE = {"none": {}, "data": {"data": 5}, "shape": {"shape": (2,), "dtype": "i4"}, "array": {"data": [1, 2]}}


def nbuild(d, state):
    if os.path.lexists(d):
        shutil.rmtree(d)
    os.mkdir(d)
    f = d + "/f.h5"
    name = "/x"
    if state == "nofile":
        return f, name
    with h5py.File(f, "w") as h:
        h["other"] = 7
        if state == "data":
            h["x"] = 1
            h["x"].attrs["a"] = "b"
        elif state == "group":
            h.create_group("x")
        elif state == "groupwith":
            h["x/y"] = 2
        elif state == "noparent":
            name = "/p/x"
        elif state == "fileparent":
            name = "/other/x"
        elif state == "link":
            h["x"] = h5py.SoftLink("other")
        elif state == "broken":
            h["x"] = h5py.SoftLink("nix")
    return f, name


def nexpect(default, req, create, state):
    """('refused', classes) or ('opened', content after or None when unchanged, writable)"""
    if default == "w-":
        default = "x"
    node = req or default
    if node == "w-":
        node = "x"
    dev = heffective(default, "a" if default == "w" else req)
    has = state != "nofile"
    if dev in ("r", "r+") and not has:
        return ("refused", fs.Missing)
    if dev in ("x", "w-") and has:
        return ("refused", OSError)
    exists = state in ("data", "group", "groupwith", "link")
    isdir = state in ("group", "groupwith")
    writable = dev != "r"
    if exists:
        if node == "x":
            return ("refused", fs.AlreadyExists)
        if node == "w":
            if isdir:
                return ("refused", fs.NotAFile)
            if not create:
                return ("refused", fs.NotADirectory)
            return ("opened", "new") if writable else ("refused", HREFUSED)
        if create:
            return ("refused", fs.AlreadyExists)
        return ("opened", None)
    if node in ("r", "r+"):
        return ("refused", fs.Missing)
    if state == "noparent":
        return ("refused", fs.MissingParentDirectory)
    if state == "fileparent":
        return ("refused", fs.NotADirectory)
    if not writable or not create or state == "broken":
        return ("refused", HREFUSED)
    return ("opened", "new")


def hnode(default, req, create, state, ctx, nested=False):
    d = os.path.join(ctx.scratch, "l")
    f, name = nbuild(d, state)
    label = "%s:%s:%s:%s%s" % (default, req, create, state, ":nested" if nested else "")
    ctx.current = label
    before = hsnap(d)
    p = h5fs.Path(name, h5file=f, mode=default)
    kw = dict(CREATE[create])
    if req is not None:
        kw["mode"] = req
    exp = nexpect(default, req, CREATE[create], state)
    got = content = None
    try:
        with p.open(**kw) as node:
            got = "opened"
            content = np.asarray(node[()]).tolist() if isinstance(node, h5py.Dataset) else "group"
        if node:
            ctx.fail("node:notclosed:" + label, {"f": "hnode", "a": [default, req, create, state]}, "item of %s is still open" % label)
    except HREFUSED as e:
        got = e
    ctx.trans()
    ctx.trace()
    s = hsnap(d)
    ctx.state((default, req, create, repr(s)))
    ctx.outcome("item %s" % (got if got == "opened" else type(got).__name__))
    err = None
    want = {"data": 5, "array": [1, 2], "shape": [0, 0]}.get(create)
    if exp[0] == "refused":
        if got == "opened":
            err = "not refused"
        elif not isinstance(got, exp[1]):
            err = "refused with %r" % got
        else:
            a = s
            if state == "nofile" and s == {"f.h5": {}}:
                a = {}  # an empty file may have been made
                if default in ("r", "r+") or heffective(default, "a" if default == "w" else req) in ("r", "r+"):
                    err = "refused but the file was created"
            if not err and a != before:
                err = "refused but changed %s to %s" % (before, s)
    elif got != "opened":
        err = "refused with %r" % got
    elif exp[1] is None:
        if s != before:
            err = "changed %s to %s" % (before, s)
        else:
            c = {"data": 1, "link": 7}.get(state, "group")
            if content != c:
                err = "gives %s" % (content,)
    else:
        after = dict(before.get("f.h5", {}))
        after["x"] = (want, ())
        if s != {"f.h5": after}:
            err = "changed %s to %s, expected %s" % (before, s, after)
        elif content != want:
            err = "gives %s instead of %s" % (content, want)
    if err:
        ctx.fail("node:" + label, {"f": "hnode", "a": [default, req, create, state]}, "HDF5 item with default mode %r, request %r, parameters %s on %s: %s" % (default, req, create, state, err))


def hseq(default, ctx):
    """several items made one after the other with the default mode"""
    d = os.path.join(ctx.scratch, "l")
    for state in ("nofile", "data"):
        f, _ = nbuild(d, state)
        root = h5fs.Path("/", h5file=f, mode=default)
        before = hsnap(d)
        res = []
        for k, v in (("m", 3), ("n", 4), ("m", 6)):
            try:
                root[k].mkfile(data=v)
                res.append("ok")
            except HREFUSED as e:
                res.append("refused")
            try:
                res.append(int(root[k].read()))
            except HREFUSED:
                res.append(None)
        old = dict(before.get("f.h5", {}))
        if default in ("r", "r+"):
            exp, after = ["refused", None] * 3, before
        elif default in ("x", "w-"):
            # the file can only be made once
            exp, after = (["ok", 3, "refused", None, "refused", 3], {"f.h5": {"m": (3, ())}}) if state == "nofile" else (["refused", None] * 3, before)
        else:
            last = 6 if default == "w" else 3
            exp = ["ok", 3, "ok", 4, "ok" if default == "w" else "refused", last]
            after = {"f.h5": dict(old, m=(last, ()), n=(4, ()))}
        s = hsnap(d)
        ctx.trans()
        ctx.trace()
        if res != exp or s != after:
            ctx.fail("seq:%s:%s" % (default, state), {"f": "hseq", "a": [default]}, "three items made with default mode %r in %s: %s and %s, expected %s and %s" % (default, state, res, s, exp, after))


def readonly(ctx):
    """nothing modifies a file through a read-only path"""
    d = os.path.join(ctx.scratch, "l")

    def ops(root):
        x, g = root["x"], root["g"]
        yield "mkfile", lambda: x.mkfile(data=3)
        yield "mkfile w", lambda: x.mkfile(data=3, mode="w")
        yield "mkfile new", lambda: root["new"].mkfile(data=3, mode="a")
        yield "mkfile x", lambda: root["new"].mkfile(data=3, mode="x")
        yield "write", lambda: x.write(data=3, mode="w")
        yield "mkdir", lambda: root["new"].mkdir()
        yield "mkdir r", lambda: root["new/new"].mkdir(recursive=True)
        yield "remove", lambda: x.remove()
        yield "remove g", lambda: g.remove(recursive=True)
        yield "move", lambda: x.move(root["new"])
        yield "rename", lambda: g.rename(root["new"])
        yield "copy", lambda: x.copy(root["new"])
        yield "copy force", lambda: x.copy(root["y"], force=True)
        yield "link", lambda: root["new"].link(x)
        yield "hardlink", lambda: root["new"].link(x, soft=False)
        yield "update_stats", lambda: x.update_stats(k="v")
        yield "openstats", lambda: putattr(x)
        yield "openstats a", lambda: putattr(x, mode="a")
        yield "h5open", lambda: putroot(root)
        yield "h5open w", lambda: putroot(root, mode="w")
        yield "read", lambda: x.read()
        yield "listdir", lambda: list(root.listdir())
        yield "missing", lambda: root["nix"].exists
        yield "find", lambda: list(root.find(".*", recursive=True))
        yield "tree", lambda: root.strtree(stats=True)

    def putattr(x, **kw):
        with x.openstats(**kw) as a:
            a["k"] = 1

    def putroot(root, **kw):
        with root.h5open(**kw) as f:
            f["new"] = 1

    for how in ("default", "readonly", "detach"):
        for have in (True, False):
            n = len(list(ops({k: 0 for k in ("x", "g")}))) if False else 25
            for i in range(n):
                if os.path.lexists(d):
                    shutil.rmtree(d)
                os.mkdir(d)
                f = d + "/f.h5"
                if have:
                    with h5py.File(f, "w") as h:
                        h["x"] = 1
                        h["y"] = 2
                        h["g/z"] = 3
                before = hsnap(d)
                if have:
                    with open(f, "rb") as h:
                        raw = h.read()
                if how == "default":
                    root = h5fs.Path(f, mode="r")
                elif how == "readonly":
                    root = h5fs.Path(f).readonly()
                else:
                    root = h5fs.Path(f, mode="a").detach(mode="r")
                name, func = list(ops(root))[i]
                ctx.current = (how, have, name)
                try:
                    func()
                except HREFUSED + (AttributeError,):
                    pass
                ctx.trans()
                ctx.trace()
                s = hsnap(d)
                ok = s == before
                if ok and have:
                    with open(f, "rb") as h:
                        ok = h.read() == raw
                if not ok:
                    ctx.fail("readonly:%s:%s:%s" % (how, have, name), {"f": "readonly", "a": []}, "%s through a read-only path changes %s to %s" % (name, before, s))


# ----------------------------------------------------------------


def shards(tier):
    out = []
    lr, hr = [None] + LMODES, [None] + HMODES
    n = 3 if tier == "thorough" else 2
    for default in LMODES:
        for state in LSTATES:
            out.append({"f": "local", "default": default, "state": state, "n": n})
    for default in HMODES:
        for state in HSTATES:
            out.append({"f": "hdevice", "default": default, "state": state, "n": n})
        for state in NSTATES:
            out.append({"f": "hnode", "default": default, "state": state})
        out.append({"f": "hseq", "default": default})
    out.append({"f": "readonly"})
    return out


def run_shard(s, ctx):
    if s["f"] == "readonly":
        return readonly(ctx)
    if s["f"] == "hseq":
        return hseq(s["default"], ctx)
    if s["f"] == "hnode":
        for req in [None] + HMODES:
            for create in CREATE:
                hnode(s["default"], req, create, s["state"], ctx)
        return
    reqs = [None] + (LMODES if s["f"] == "local" else HMODES)
    func = local if s["f"] == "local" else hdevice
    for n in range(1, s["n"] + 1):
        for r in itertools.product(reqs, repeat=n):
            func(s["default"], list(r), s["state"], ctx)
    ctx.sample({"default": s["default"], "state": s["state"], "requests": list(r)})


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    globals()[case["f"]](*case["a"], ctx)
