"""C13: NeXus data groups under every history of adding, removing, re-ordering and selecting signals and setting axes."""

import itertools
import os
import shutil

import h5py
import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all states reached by up to 4 of 42 operations (adding data, links and existing datasets of matching and other shapes, removing, selecting, sorting, setting axes, marking) on an NXdata group with up to 5 signals, in 3 dimensionalities; all sequences of 3 default markings over 7 groups and signals of 6 placements",
    "thorough": "up to 6 operations; sequences of 4 markings",
}
ASSUMPTIONS = ["one process changes the file", "scalar signals do not have axes", "only signals are removed through the data group"]

SHAPES = {2: (3, 2), 1: (4,), 3: (2, 1, 3)}
AX = {2: ["y", "x"], 1: ["x"], 3: ["z", "y", "x"]}


def text(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def look(fn, path="/entry/data"):
    """The group as any HDF5 reader sees it"""
    with h5py.File(fn, "r") as f:
        g = f[path]
        at = g.attrs
        out = {
            "signal": text(at["signal"]) if "signal" in at else None,
            "aux": [text(s) for s in np.atleast_1d(at["auxiliary_signals"])] if "auxiliary_signals" in at else [],
            "axes": [text(s) for s in np.atleast_1d(at["axes"])] if "axes" in at else [],
            "class": text(at.get("NX_class", "")),
            "nodes": {},
        }
        for k in g:
            n = g.get(k)
            out["nodes"][k] = None if n is None else (n.shape, np.asarray(n[()]).ravel().tolist())
        dflt = []
        node = f["/"]
        while node is not None and "default" in node.attrs and len(dflt) < 10:
            d = text(node.attrs["default"])
            dflt.append(d)
            node = node.get(d)
        out["default"] = None if node is None else node.name
        return out


def prepare(fn, nd):
    from spectrocrunch.io import nxfs

    root = nxfs.Path("/", h5file=fn)
    entry = root.nxentry(name="entry")
    entry.nxdata("data")
    entry.nxdata("second")
    other = entry.nxdata("order")
    sh = SHAPES[nd]
    for s in ("c", "a", "s1"):
        other.add_signal(name=s, data=np.zeros(2))
    other = entry.nxdata("order2")
    for s in ("a", "b"):
        other.add_signal(name=s, data=np.zeros(2))
    src = entry.nxcollection("source")
    src["s1"].mkfile(data=np.arange(np.prod(sh)).reshape(sh))
    src["s2"].mkfile(data=np.arange(np.prod(sh) + 2))
    src["ax"].mkfile(data=np.arange(sh[0]) * 2.5)


def group(fn):
    from spectrocrunch.io import nxfs

    return nxfs.Path("/entry/data", h5file=fn).factory("/entry/data")


def operations(nd):
    """name -> (function, model)

    The model gets the state (signals with the default first, axes, all signal shapes equal) and returns a new
    one, None when the operation is to be refused, or a set of acceptable states
    """
    from spectrocrunch.io import nxfs
    from spectrocrunch.utils import units

    sh = SHAPES[nd]
    wrong = tuple(s + 1 for s in sh)
    short = sh[1:] if nd > 1 else (sh[0], 1)
    names = AX[nd]
    vals = {n: (np.arange(k) * 10 + i).tolist() for i, (n, k) in enumerate(zip(names, sh))}
    src = lambda fn, n: nxfs.Path("/entry/source/" + n, h5file=fn)  # noqa
    ops = {}

    def add(name, shape):
        def model(st):
            sig, axes, have = st
            if have is not None and have != shape:
                return None
            return ([name] + [s for s in sig if s != name], axes, shape)

        return model

    for n, k in (("a", 1), ("b", 2), ("c", 3)):
        ops["add " + n] = (lambda g, fn, n=n, k=k: g.add_signal(name=n, data=np.full(sh, k)), add(n, sh))
        ops["default " + n] = (lambda g, fn, n=n: g.default_signal(n), lambda st, n=n: ([n] + [s for s in st[0] if s != n],) + st[1:] if n in st[0] else st)

        def removed(st, n=n):
            if n not in st[0]:
                return "unlisted"
            left = [s for s in st[0] if s != n]
            if not left:
                return ([], st[1], axes_shape(st[1], nd))
            if st[0][0] == n:
                return [([d] + [s for s in left if s != d],) + st[1:] for d in left]
            return (left,) + st[1:]

        ops["remove " + n] = (lambda g, fn, n=n: g.remove_signal(n), removed)
    ops["add a wrong"] = (lambda g, fn: g.add_signal(name="a", data=np.zeros(wrong)), add("a", wrong))
    ops["add d wrong"] = (lambda g, fn: g.add_signal(name="d", shape=wrong, dtype=int), add("d", wrong))
    ops["add d short"] = (lambda g, fn: g.add_signal(name="d", data=np.zeros(short)), add("d", short))
    ops["add d shape"] = (lambda g, fn: g.add_signal(name="d", shape=sh, dtype=float, title="D", units="mm"), add("d", sh))
    ops["add link"] = (lambda g, fn: g.add_signal(path=src(fn, "s1")), add("s1", sh))
    ops["add link a"] = (lambda g, fn: g.add_signal(name="a", path=src(fn, "s1")), add("a", sh))
    ops["add link wrong"] = (lambda g, fn: g.add_signal(path=src(fn, "s2")), add("s2", (int(np.prod(sh)) + 2,)))
    ops["add nothing"] = (lambda g, fn: g.add_signal(), lambda st: None)
    ops["add again a"] = (lambda g, fn: g.add_signal(name="a"), lambda st: add("a", st[2])(st) if "a" in st[0] else "free")
    ops["default zz"] = (lambda g, fn: g.default_signal("zz"), lambda st: st)
    ops["remove x"] = (lambda g, fn: g.remove_signal("x"), lambda st: None if "x" in st[1] else "unlisted")
    ops["remove zz"] = (lambda g, fn: g.remove_signal("zz"), lambda st: "unlisted")
    ops["sort"] = (lambda g, fn: g.sort_signals(), lambda st: (sorted(st[0]), st[1], st[2], "sorted") if st[0] else "free")

    def like(st):
        return ["s1", "a", "c"]

    def order(g, fn):
        g.sort_signals(other=nxfs.Path("/entry/order", h5file=fn).factory("/entry/order"))

    def order2(g, fn):
        g.sort_signals(other=nxfs.Path("/entry/order2", h5file=fn).factory("/entry/order2"))

    ops["sort like two"] = (order2, lambda st: (["b", "a"], st[1], st[2], "sorted") if sorted(st[0]) == ["a", "b"] else (st if st[0] else "free"))
    ops["sort like"] = (order, lambda st: (like(st), st[1], st[2], "sorted") if sorted(st[0]) == ["a", "c", "s1"] else (st if st[0] else "free"))

    def axes(new, shape, create=True):
        def model(st):
            sig, _, have = st
            if sig and have != shape:
                return None
            return (sig, list(new), shape)

        return model

    q = lambda x: units.Quantity(np.array(x, dtype=float), "mm")  # noqa
    ops["axes"] = (lambda g, fn: g.set_axes(*[(n, vals[n], None) for n in names]), axes(names, sh))
    ops["axes names"] = (lambda g, fn: g.set_axes(*names), "known")
    ops["axes attributes"] = (lambda g, fn: g.set_axes(*[(n + "u", q(vals[n]), {"title": n}) for n in names]), axes([n + "u" for n in names], sh))
    ops["axes path"] = (lambda g, fn: g.set_axes(("ax", src(fn, "ax"), {}), *[(n, vals[n], {}) for n in names[1:]]), axes(["ax"] + names[1:], sh))
    ops["axes missing"] = (lambda g, fn: g.set_axes(*[(n, vals[n], None) for n in names[1:]]), axes(names[1:], sh[1:]))
    ops["axes extra"] = (lambda g, fn: g.set_axes(*[(n, vals[n], None) for n in names], ("w", [1.0, 2.0], {})), axes(names + ["w"], sh + (2,)))
    ops["axes size"] = (lambda g, fn: g.set_axes(*[(n + "s", vals[n] + [9.0], {}) for n in names]), axes([n + "s" for n in names], wrong))
    ops["axes conflict"] = (lambda g, fn: g.set_axes(*[(n, [v + 0.5 for v in vals[n]], {}) for n in names]), "conflict")
    um = lambda x, f: units.Quantity(np.array(x, dtype=float) * f, "um")  # noqa
    ops["axes units conflict"] = (lambda g, fn: g.set_axes(*[(n + "u", um(vals[n], 1), {}) for n in names]), ("conflict", [n + "u" for n in names]))
    ops["axes units wrong"] = (lambda g, fn: g.set_axes(*[(n, q(vals[n]), {}) for n in names]), ("conflict", names))
    ops["axes units same"] = (lambda g, fn: g.set_axes(*[(n + "u", um(vals[n], 1000), {}) for n in names]), ("same", [n + "u" for n in names]))
    if len(set(sh)) > 1:
        ops["axes reversed"] = (lambda g, fn: g.set_axes(*[(n, vals[n], None) for n in names[::-1]]), axes(names[::-1], sh[::-1]))
    ops["mark"] = (lambda g, fn: g.mark_default(), lambda st: st + ("mark",))
    for n in ("a", "b"):
        ops["mark " + n] = (
            lambda g, fn, n=n: g[n].mark_default(),
            lambda st, n=n: ([n] + [s for s in st[0] if s != n],) + st[1:] + ("mark",) if n in st[0] else "free",
        )
    ops["mark second"] = (
        lambda g, fn: nxfs.Path("/", h5file=fn).factory("/entry/second").mark_default(),
        lambda st: st + ("mark second",),
    )
    return ops, vals


def axes_shape(axes, nd):
    if not axes:
        return None
    sh = dict(zip(AX[nd], SHAPES[nd]))
    out = []
    for a in axes:
        if a == "ax":
            out.append(SHAPES[nd][0])
        elif a == "w":
            out.append(2)
        elif a in sh:
            out.append(sh[a])
        elif a.endswith("u"):
            out.append(sh[a[:-1]])
        else:
            out.append(sh[a[:-1]] + 1)
    return tuple(out)


def valid(v, want_axes_values, say):
    """Does the group describe a plot"""
    sig, aux, axes = v["signal"], v["aux"], v["axes"]
    if v["class"] != "NXdata":
        say("class", v["class"])
    if sig is None:
        if aux:
            say("auxiliary signals without a default", aux)
    else:
        for s in [sig] + aux:
            if v["nodes"].get(s) is None:
                say("dangling signal", s)
                return
        if len(set([sig] + aux)) != 1 + len(aux):
            say("duplicate signals", (sig, aux))
        if len({v["nodes"][s][0] for s in [sig] + aux}) != 1:
            say("shapes differ", {s: v["nodes"][s][0] for s in [sig] + aux})
    for a in axes:
        if v["nodes"].get(a) is None:
            say("dangling axis", a)
            return
    if axes and sig is not None:
        sh = v["nodes"][sig][0]
        ash = tuple(int(np.prod(v["nodes"][a][0])) for a in axes)
        if ash != sh:
            say("axes do not match", "%s for signals of %s" % (ash, sh))


def api(g, v, say):
    """The group as spectrocrunch describes it"""
    s = g.signal
    if (s.name if s is not None else None) != v["signal"]:
        say("signal read", s)
    if [x.name for x in g.auxiliary_signals] != v["aux"]:
        say("auxiliary signals read", [x.name for x in g.auxiliary_signals])
    if v["signal"] is not None:
        if [x.name for x in g.signals] != [v["signal"]] + v["aux"]:
            say("signals read", [x.name for x in g.signals])
        sh = v["nodes"][v["signal"]][0]
        if tuple(g.shape) != sh or g.ndim != len(sh) or g.size != int(np.prod(sh)) or g.dtype is None:
            say("shape read", (g.shape, g.ndim, g.size))
        if g.interpretation not in ("spectrum", "image") or g.stackdim() is None:
            say("interpretation read", g.interpretation)
    if [a[0] for a in g.axes] != v["axes"] or tuple(g.axes_shape) != tuple(int(np.prod(v["nodes"][a][0])) for a in v["axes"]):
        say("axes read", g.axes)
    for name, values, attrs in g.axes:
        if np.asarray(values.magnitude).ravel().tolist() != v["nodes"][name][1]:
            say("axis values read", values)
        if name.endswith("u") and (str(values.units) != "millimeter" or attrs["title"] != name[:-1]):
            say("axis units read", (values, attrs))


class Search:
    def __init__(self, nd, ctx):
        self.nd, self.ctx = nd, ctx
        self.dir = os.path.join(ctx.scratch, "c13")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        self.fn = os.path.join(self.dir, "a.h5")
        self.ops, self.vals = operations(nd)
        self.n = 0
        self.read = set()

    def step(self, snapshot, model, path, name):
        """Apply one operation, gives the new model or None when it ends here"""
        ctx, fn = self.ctx, self.fn
        case = {"nd": self.nd, "history": list(path) + [name]}
        ctx.current = case
        ctx.tick(1, "operations")

        def say(what, got):
            ctx.fail("%s: %s" % (name, what), case, "%s: %s: %s" % (", ".join(case["history"]), what, got))
            raise StopIteration

        shutil.copyfile(snapshot, fn)
        before = look(fn)
        f, expect = self.ops[name]
        st = (model["signals"], model["axes"], model["shape"])
        known = model["known"]
        if expect == "known":
            if all(k in known for k in AX[self.nd]):
                want = (st[0], AX[self.nd], SHAPES[self.nd]) if not st[0] or st[2] == SHAPES[self.nd] else None
            else:
                want = None
        elif expect == "conflict":
            want = "free" if not any(k in known for k in AX[self.nd]) else None
        elif isinstance(expect, tuple):
            if expect[0] == "conflict":
                want = "free" if not any(k in known for k in expect[1]) else None
            elif all(k in known for k in expect[1]):
                want = (st[0], expect[1], SHAPES[self.nd]) if not st[0] or st[2] == SHAPES[self.nd] else None
            else:
                want = "free"
        else:
            want = expect(st)
        if name.startswith("axes units") and want == "free":
            return None
        err = None
        try:
            f(group(fn), fn)
        except StopIteration:
            raise
        except Exception as e:  # noqa
            err = e
        v = look(fn)
        try:
            valid(v, None, say)
            if err is None and repr(v) not in self.read:
                self.read.add(repr(v))
                api(group(fn), v, say)
        except StopIteration:
            return None
        except Exception as e:  # noqa
            ctx.fail("%s: reading raises %s" % (name, type(e).__name__), case, "%s: reading raises %r" % (case["history"], e))
            return None
        keys = ("signal", "aux", "axes", "default")
        try:
            if want == "unlisted":
                # not a signal: nothing may change in what is listed
                if any(v[k] != before[k] for k in keys[:3]):
                    say("changes the listed signals", v)
                return None
            if want == "free":
                return None
            if want is None:
                if err is None:
                    say("is not refused", (v["signal"], v["aux"], v["axes"]))
                if any(v[k] != before[k] for k in keys) or any(v["nodes"].get(k) != n for k, n in before["nodes"].items()):
                    say("is refused but changes the group", (v["signal"], v["aux"], v["axes"]))
                extra = [k for k in v["nodes"] if k not in before["nodes"]]
                if extra and name.startswith("add"):
                    say("is refused but adds", extra)
                ctx.outcome("refused")
                return None
            target = {"add link": "s1", "add link a": "a", "add link wrong": "s2"}.get(name) or name.split()[2 if name == "add again a" else 1] if name.startswith("add") else None
            already = target in st[0]
            if err is not None:
                if already:
                    if any(v[k] != before[k] for k in keys):
                        say("is refused but changes the group", v)
                    return None
                ctx.fail("%s raises %s" % (name, type(err).__name__), case, "%s raises %r" % (", ".join(case["history"]), err))
                return None
            wants = want if isinstance(want, list) else [want]
            got = None
            for w in wants:
                ordered = w[-1] == "sorted"
                sig = w[0]
                if (v["signal"] or None) == (sig[0] if sig else None) and (v["aux"] == sig[1:] if ordered else sorted(v["aux"]) == sorted(sig[1:])) and v["axes"] == w[1]:
                    got = w
            if got is None:
                say("result", "signal %s, auxiliary %s, axes %s instead of %s" % (v["signal"], v["aux"], v["axes"], wants))
            mark = model["mark"]
            if got[-1] == "mark":
                mark = "/entry/data"
            elif got[-1] == "mark second":
                mark = "/entry/second"
            if mark and v["default"] != mark:
                say("default plot", "%s instead of %s" % (v["default"], mark))
            # data of the other signals is untouched
            for k, n in before["nodes"].items():
                if v["nodes"].get(k) != n and not (name.startswith("remove") and k == name.split()[1]) and not already:
                    say("changes " + k, (n, v["nodes"].get(k)))
            if name.startswith("remove") and name.split()[1] in v["nodes"]:
                say("is still there", sorted(v["nodes"]))
            k = {"add a": 1, "add b": 2, "add c": 3}.get(name)
            if k and not already and set(v["nodes"][name[-1]][1]) != {k}:
                say("data", v["nodes"][name[-1]])
            if name.startswith("axes"):
                for nm in got[1]:
                    if nm in self.vals and v["nodes"][nm][1] != self.vals[nm]:
                        say("axis values", v["nodes"][nm])
        except StopIteration:
            return None
        kn = set(known)
        if name.startswith("axes"):
            kn |= set(got[1])
        ctx.outcome(name.split()[0])
        return {"signals": [v["signal"]] + v["aux"] if v["signal"] else [], "axes": v["axes"], "shape": got[2] if not (not v["signal"]) else axes_shape(v["axes"], self.nd), "mark": mark, "known": frozenset(kn)}

    def key(self, m, fn):
        v = look(fn)
        return (tuple(m["signals"]), tuple(m["axes"]), m["shape"], m["mark"], m["known"], tuple(sorted(v["nodes"])))

    def run(self, depth, only=None, first=None, core=False):
        ctx = self.ctx
        start = os.path.join(self.dir, "s0.h5")
        prepare(start, self.nd)
        level = [(start, {"signals": [], "axes": [], "shape": None, "mark": None, "known": frozenset()}, ())]
        seen = set()
        for d in range(depth):
            new = []
            for snap, model, path in level:
                names = [only[d]] if only else [n for n in self.ops if n in CORE or not core]
                if first and d == 0:
                    names = [first]
                for name in names:
                    m = self.step(snap, model, path, name)
                    ctx.trans(1)
                    if m is None:
                        continue
                    k = self.key(m, self.fn)
                    if k in seen and not only:
                        continue
                    seen.add(k)
                    ctx.state((self.nd, k))
                    self.n += 1
                    s = os.path.join(self.dir, "s%d.h5" % self.n)
                    if d + 1 < depth:
                        shutil.copyfile(self.fn, s)
                    new.append((s, m, path + (name,)))
                os.remove(snap)
            level = new
        ctx.trace(1)


# Marking a group or signal as default, wherever it is

PLACES = ["/e1/d1", "/e1/d2", "/e1/p/results/d", "/e1/sub/d", "/e1/plain/deep/d", "/e2/d1", "/e2/d1/a", "/e1/d1/b", "/e1/p/results/d/b"]


def check_marks(seq, fn, ctx):
    from spectrocrunch.io import nxfs

    case = {"marks": list(seq)}
    ctx.current = case
    ctx.tick(1, "markings")
    try:
        for i, p in enumerate(seq):
            nxfs.Path("/", h5file=fn).factory(p).mark_default()
            with h5py.File(fn, "r") as f:
                node = f["/"]
                n = 0
                while "default" in node.attrs and n < 10:
                    d = text(node.attrs["default"])
                    if d not in node:
                        ctx.fail("default chain", case, "%s: default %s does not exist in %s" % (seq[: i + 1], d, node.name))
                        return
                    node = node[d]
                    n += 1
                grp = p if p.count("/") < 2 or f[p].attrs.get("NX_class") else os.path.dirname(p)
                if node.name != grp:
                    ctx.fail("default chain", case, "%s: the default is %s" % (seq[: i + 1], node.name))
                    return
                if grp != p and text(node.attrs["signal"]) != os.path.basename(p):
                    ctx.fail("default signal", case, "%s: the default signal is %s" % (seq[: i + 1], node.attrs["signal"]))
                    return
                if sorted([text(node.attrs["signal"])] + [text(s) for s in node.attrs["auxiliary_signals"]]) != ["a", "b", "c"]:
                    ctx.fail("default signals", case, "%s" % dict(node.attrs))
                    return
            dflt = nxfs.Path("/", h5file=fn)["e1"].default
            if dflt.path != grp:
                ctx.fail("default read", case, "%s: %s" % (seq[: i + 1], dflt))
                return
    except Exception as e:  # noqa
        ctx.fail("mark raises %s" % type(e).__name__, case, "%s raises %r" % (seq, e))
    ctx.trans(len(seq))


def places(fn):
    from spectrocrunch.io import nxfs

    root = nxfs.Path("/", h5file=fn)
    for e in ("e1", "e2"):
        root.nxentry(name=e)
    root["e1"].factory("/e1").nxprocess("p", parameters={})
    for p in PLACES:
        if p.rsplit("/", 1)[1] in ("a", "b"):
            continue
        parent = root
        for name in p.split("/")[1:-1]:
            here = parent.path.rstrip("/") + "/" + name
            node = root.factory(here)
            if name == "results":
                root.factory("/e1/p").results
            elif name == "sub":
                root.factory("/e1").nxsubentry("sub")
            elif not node.exists:
                node.mkdir()
            parent = root.factory(here)
        d = parent.nxdata(p.rsplit("/", 1)[1])
        for s in "abc":
            d.add_signal(name=s, data=np.zeros((2, 3)))


def worker_init():
    import warnings
    from . import tasklib

    warnings.simplefilter("ignore")
    tasklib.quiet()
    import spectrocrunch.io.nxfs  # noqa


CORE = ("add a", "add b", "add c", "add link", "add a wrong", "default a", "default b", "remove a", "remove b", "remove c", "sort", "sort like two", "axes", "axes size")


def shards(tier):
    t = tier == "thorough"
    out = []
    for nd in (2, 1, 3):
        for first in operations(nd)[0]:
            if nd == 2 or t:
                out.append({"what": "history", "nd": nd, "depth": 4 if t else 3, "first": first, "core": False})
            if first in CORE:
                out.append({"what": "history", "nd": nd, "depth": 6 if t else 4, "first": first, "core": True})
    return out + [{"what": "marks", "n": 4 if t else 3, "first": i} for i in range(len(PLACES))]


def run_shard(shard, ctx):
    if shard["what"] == "history":
        s = Search(shard["nd"], ctx)
        s.run(shard["depth"], first=shard["first"], core=shard["core"])
        shutil.rmtree(s.dir)
    else:
        base = os.path.join(ctx.scratch, "base.h5")
        fn = os.path.join(ctx.scratch, "m.h5")
        places(base)
        for seq in itertools.product(PLACES, repeat=shard["n"] - 1):
            shutil.copyfile(base, fn)
            check_marks((PLACES[shard["first"]],) + seq, fn, ctx)
            ctx.state(seq)
        os.remove(base)
        os.remove(fn)
        ctx.trace(1)
    ctx.sample(shard)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if "history" in case:
        Search(case["nd"], ctx).run(len(case["history"]), only=case["history"])
    else:
        fn = os.path.join(ctx.scratch, "m.h5")
        places(fn)
        check_marks(tuple(case["marks"]), fn, ctx)
