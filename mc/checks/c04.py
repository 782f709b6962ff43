"""C04: histories of task runs on one file: what exists is found again by its
parameters, everything else gets its own name, nothing that exists is changed."""

import copy
import os
import shutil

import h5py
import numpy as np

from mc.checks import tasklib

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all histories of depth 3 over 7 tasks (two parameter values, two inputs, names with and without number, a name taken by an input, chained) and the removal of any result, of depth 2 over 11 tasks (also more inputs, nested parameters, another entry) from 2 starting files (names taken by foreign items); 41 parameter values, each run in one file with neighbouring or all values (equal ones share a result, others do not); 7 kinds of processing tasks with every single parameter changed",
    "thorough": "depth 4 and 3, 4 starting files, all ordered pairs of values",
}
ASSUMPTIONS = ["one process at a time (concurrent runs: C05)"]
TECHNIQUE = "explicit-state model checking: breadth-first search over histories of task runs on the real code in lock step with a dictionary model"


def light():
    """A processing task that costs little: one small NXdata"""
    from spectrocrunch.process import nxprocess

    global Light
    if "Light" in globals():
        return Light

    class Light(nxprocess.Task):
        def _parameters_defaults(self):
            super()._parameters_defaults()
            self.required_parameters |= {"a", "b"}
            self.parameters.setdefault("b", None)

        def _execute(self):
            nxdata = self.temp_nxresults.nxdata("d")
            nxdata.add_signal("S", data=np.arange(3.0))

    globals()["Light"] = Light
    return Light


# name: (task parameters, dependency, output entry)
TASKS = {
    "A": ({"a": 1}, "p1", None),
    "B": ({"a": 2}, "p1", None),
    "Ab": ({"a": 1, "b": [1, {"c": 2}]}, "p1", None),
    "in2": ({"a": 1}, "p2", None),
    "other": ({"a": 1, "name": "other"}, "p1", None),
    "n3": ({"a": 1, "name": "light.3"}, "p1", None),
    "n2B": ({"a": 3, "name": "light.2"}, "p1", None),
    "raw": ({"a": 1, "name": "fromraw"}, "p1", None),
    "entry": ({"a": 1}, "p1", "entry0002"),
    "onA": ({"a": 1}, "A", None),
    "both": ({"a": 1}, ("p1", "p2"), None),
    "rev": ({"a": 1}, ("p2", "p1"), None),
}


def first_name(name):
    return name if any(c.isdigit() for c in name) else name + ".1"


def next_name(name):
    import re

    m = list(re.finditer("[0-9]+", name))[-1]
    num = str(int(m.group()) + 1).zfill(len(m.group()))
    return name[: m.start()] + num + name[m.end() :]


class World:
    def __init__(self, d, start):
        from spectrocrunch.io import nxfs

        self.d = d
        self.fn = os.path.join(d, "data.h5")
        self.start = start
        if os.path.exists(self.fn):
            os.remove(self.fn)
        tasklib.small_input(self.fn, groups=(("d", ("S",)),), shape=(2, 2), name="fromraw.1")
        tasklib.small_input(self.fn, entry="entry0001", groups=(("d", ("S",)),), shape=(2, 2), name="fromraw.2", params={"a": 2})
        if start in (1, 3):
            # foreign things with the names of results
            with h5py.File(self.fn, "a") as f:
                f["/entry0001"].create_group("light.1")
                f["/entry0001/light.2"] = 5
        if start in (2, 3):
            with h5py.File(self.fn, "a") as f:
                f["/entry0001/other.1"] = h5py.SoftLink("/entry0001/fromraw.1")
        self.nxfs = nxfs

    def path(self, p):
        return self.nxfs.factory(self.nxfs.Path(p, h5file=self.fn))

    def bytes(self):
        with open(self.fn, "rb") as f:
            return f.read()

    def setbytes(self, b):
        with open(self.fn, "wb") as f:
            f.write(b)

    def dump(self):
        return tasklib.dumpfile(self.fn)


IN = {"p1": "/entry0001/fromraw.1", "p2": "/entry0001/fromraw.2"}


def key(task, depth=0):
    """What identifies a result"""
    par, dep, entry = TASKS[task]
    deps = dep if isinstance(dep, tuple) else (dep,)
    return (
        tuple(sorted((k, repr(v)) for k, v in par.items())),
        tuple(d if d in IN else key(d) for d in deps),
        entry,
    )


def depof(model, task):
    par, dep, entry = TASKS[task]
    deps = dep if isinstance(dep, tuple) else (dep,)
    return [IN[d] if d in IN else model["where"].get(d) for d in deps]


class Search:
    def __init__(self, ctx, start):
        self.ctx = ctx
        self.d = os.path.join(ctx.scratch, "c04")
        shutil.rmtree(self.d, ignore_errors=True)
        os.mkdir(self.d)
        self.w = World(self.d, start)
        self.start = start

    def make(self, name, model):
        from spectrocrunch.process import utils

        par, dep, entry = TASKS[name]
        kw = dict(copy.deepcopy(par))
        if entry:
            kw["outputparent"] = self.w.nxfs.Path("/" + entry, h5file=self.w.fn)
        deps = depof(model, name)
        if None in deps:
            return None
        if len(deps) == 1:
            dependency = self.w.path(deps[0])
        else:
            dependency = [self.w.path(p) for p in deps]
        kw.setdefault("name", "light")
        return utils.create_task(method="light", _task=light(), dependencies=dependency, **kw)

    def fail(self, hist, sig, msg):
        self.ctx.fail("%s:%s" % (hist[-1] if not isinstance(hist[-1], list) else "remove", sig), {"start": self.start, "history": hist}, "start %d, %s: %s" % (self.start, hist, msg))

    def expected(self, model, name, before):
        """existing result, or the first free name"""
        par, dep, entry = TASKS[name]
        req = par.get("name", "light")
        ent = "/" + (entry or depentry(depof(model, name)[-1]))
        k = key(name)
        for path in sorted(model["results"]):
            rkey = model["results"][path]
            if path.rsplit("/", 1)[0] == ent and rkey == k:
                return path, True
        cand = first_name(req)
        while (ent + "/" + cand).strip("/") in before:
            cand = next_name(cand)
        return ent + "/" + cand, False

    def apply(self, model, op, hist):
        """Returns the new model, or None when not possible"""
        ctx, w = self.ctx, self.w
        before = w.dump()
        raw = w.bytes()
        model = copy.deepcopy(model)
        if isinstance(op, list):
            path = op[1]
            if path not in model["results"]:
                return None
            w.path(path).remove(recursive=True)
            gone = {k for k in before if k == path.strip("/") or k.startswith(path.strip("/") + "/")}
            want = {k: v for k, v in before.items() if k not in gone}
            after = w.dump()
            if after != want:
                self.fail(hist, "removal changes others", tasklib.diff(want, after))
            del model["results"][path]
            model["where"] = {k: v for k, v in model["where"].items() if v != path}
            return model
        task = self.make(op, model)
        if task is None:
            return None
        ctx.tick(1, "runs")
        deps = depof(model, op)
        lost = [p for p in deps if p.strip("/") not in before]
        path, exists = self.expected(model, op, before) if not lost else (None, None)
        if not lost and task.done != exists:
            self.fail(hist, "done before", "done is %r before running, result exists: %r" % (task.done, exists))
        if not lost and task.output.path != path:
            self.fail(hist, "output before", "output before running is %s, expected %s" % (task.output.path, path))
        task.run()
        after = w.dump()
        if lost:
            if w.bytes() != raw:
                self.fail(hist, "missing input", "file changes although %s does not exist: %s" % (lost, tasklib.diff(before, after)))
            return model
        if not task.done or task.output.path != path:
            self.fail(hist, "output", "output is %s (done=%r), expected %s" % (task.output.path, task.done, path))
            return None
        if exists:
            if w.bytes() != raw and before != after:
                self.fail(hist, "existing result", "file changes although the result exists: %s" % tasklib.diff(before, after))
        else:
            rel = path.strip("/")
            ent = rel.split("/")[0]
            others = {k: v for k, v in after.items() if not (k == rel or k.startswith(rel + "/"))}
            a, b = neutral(before), neutral(others)
            for k in (ent, ent + "/start_time", ent + "/end_time"):
                if k not in a:
                    b.pop(k, None)
            if a != b:
                self.fail(hist, "others", "other items change: %s" % tasklib.diff(a, b))
            model["results"][path] = key(op)
        model["where"][op] = path
        self.remembers(path, op, model, hist)
        return model

    def remembers(self, path, op, model, hist):
        p = self.w.path(path)
        if not p.is_nxclass("NXprocess"):
            self.fail(hist, "class", "%s is not a process" % path)
            return
        par = TASKS[op][0]
        want = {"method": "light", "default": None, "name": par.get("name", "light"), "a": par["a"], "b": par.get("b")}
        got = p.config.read()
        if got != want:
            self.fail(hist, "parameters", "stored parameters %r, requested %r" % (got, want))
        deps = [d.linkdest(follow=True).path if d.islink else d.path for d in p.dependencies]
        if deps != depof(model, op):
            self.fail(hist, "dependencies", "stored inputs %r, used %r" % (deps, depof(model, op)))
        if not p.valid_checksum():
            self.fail(hist, "checksum", "checksum of %s is not valid" % path)

    def state(self, model):
        return repr((sorted(model["results"].items()), sorted(model["where"].items()), sorted(self.w.dump())))

    def run(self, depth, first, tasks):
        ctx = self.ctx
        model0 = {"results": {}, "where": {}}
        start = self.w.bytes()
        frontier = [([], model0, start)]
        seen = set()
        for level in range(depth):
            new = []
            for hist, model, data in frontier:
                ops = list(tasks) + [["remove", p] for p in sorted(model["results"])]
                if level == 0:
                    ops = [first]
                for op in ops:
                    self.w.setbytes(data)
                    h = hist + [op]
                    ctx.current = {"start": self.start, "history": h}
                    m = self.apply(model, op, h)
                    if m is None:
                        continue
                    ctx.trans(1)
                    ctx.trace(1)
                    s = self.state(m)
                    ctx.state((self.start, s))
                    if s in seen or level == depth - 1:
                        continue
                    seen.add(s)
                    new.append((h, m, self.w.bytes()))
            frontier = new
            ctx.outcome("level %d" % (level + 1))


def depentry(path):
    return path.strip("/").split("/")[0]


def neutral(dump):
    """Without what marks the default plot"""
    out = {}
    for p, v in dump.items():
        if v[0] == "group":
            v = ("group", {k: x for k, x in v[1].items() if k != "default"})
        out[p] = v
    return out


# ---------------------------------------------------------------- values


def values():
    from spectrocrunch.patch.pint import ureg

    x = [1, 2]
    vals = [
        (0, None), (1, 0), (2, 1), (2, 1.0), (2, np.float64(1)), (2, np.int32(1)), (3, 1.5), (3, np.float64(1.5)),
        (4, "1"), (5, "a"), (6, "\u00e9\u4e2d"), (7, ""), (8, []), (9, [1]), (10, [1, 2]), (10, (1, 2)), (10, np.array([1, 2])),
        (11, [2, 1]), (12, [[1], 2]), (13, [[1, 2]]), (13, [[1.0, 2]]), (14, {"k": 1}), (15, {"k": 2}), (16, {"l": 1}),
        (17, {"k": 1, "l": 2}), (17, {"l": 2, "k": 1}), (18, {"k": {"k": 1}}), (19, [x, x]), (20, [[1, 2], [1, 2, 3]]),
        (21, -1), (22, 1e300), (23, {"k": [1, {"l": (2, None)}]}), (24, ureg.Quantity(1.5, "um")), (25, ureg.Quantity(1.5, "mm")),
        (26, {1: 2, 2: 3}), (27, {"a", "b"}), (28, float("nan")), (29, [float("inf")]), (30, {}),
        (31, 1.0000000001), (32, 2**70),
    ]
    return vals


def run_values(ctx, part, nparts):
    """Pairs of parameter values: run with one, run with the other, run with the first again"""
    from spectrocrunch.process import utils

    d = os.path.join(ctx.scratch, "v")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    vals = values()
    for i in range(part, len(vals), nparts):
        # all values in one file, the first one before and after
        fn = os.path.join(d, "v.h5")
        if os.path.exists(fn):
            os.remove(fn)
        proc = tasklib.small_input(fn, groups=(("d", ("S",)),), shape=(2, 2))

        def run(j):
            t = utils.create_task(method="light", _task=light(), dependencies=proc, a=copy.deepcopy(vals[j][1]))
            t.run()
            ctx.tick(1, "runs")
            ctx.trans(1)
            if not t.done:
                ctx.fail("value:%s" % type(vals[j][1]).__name__, {"values": [i]}, "task with parameter %r is not executed" % (vals[j][1],))
                return None
            return t.output.path

        where = {}
        order = [i] + list(range(len(vals))) if ctx.thorough or i % 20 == 0 else [i, (i + 1) % len(vals), (i + 7) % len(vals)]
        for j in order + [i]:
            path = run(j)
            ident = vals[j][0]
            for k, p in where.items():
                if (k == ident) != (p == path):
                    other = next(v for kk, v in vals if kk == k)
                    ctx.fail(
                        "value:%s:%s" % (i, j),
                        {"values": [i]},
                        "parameter %r has result %s, %r has result %s" % (vals[j][1], path, other, p),
                    )
            where.setdefault(ident, path)
            ctx.state((i, ident, path))
        ctx.trace(1)


# ---------------------------------------------------------------- real tasks

REAL = {
    "crop": ({"reference": "A", "roi": [(0, 2), (1, 3)]}, [{"reference": "B"}, {"roi": [(0, 1), (1, 3)]}, {"default": "A"}, {"sliced": True}, {"stackdim": 1}, {"name": "cut"}]),
    "cropnan": ({"method": "crop", "reference": "A", "nanval": 1}, [{"nanval": 2}, {"nanfull": False}]),
    "replace": ({"old": 1, "new": 2}, [{"old": 3}, {"new": 4}, {"skip": [{"method": "regex", "pattern": "B"}]}]),
    "minlog": ({}, [{"skip": [{"method": "regex", "pattern": "B"}]}, {"skip": [{"method": "regex", "pattern": "A"}]}]),
    "expression": ({"expression": "{}+{B}"}, [{"expression": "{}+{A}"}, {"copy": [{"method": "regex", "pattern": "B"}]}]),
    "align": ({"alignmethod": "max", "reference": "A", "refimageindex": 0}, [{"refimageindex": 1}, {"crop": True}, {"reference": "B"}]),
    "resample": ({"encoders": {}}, [{"crop": True}]),
}


def run_real(ctx, name):
    from spectrocrunch.process import utils

    d = os.path.join(ctx.scratch, "r")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    fn = os.path.join(d, "r.h5")
    proc = tasklib.small_input(fn, groups=(("detector00", ("A", "B")),), shape=(2, 3, 4))
    base, variants = REAL[name]
    base = dict({"method": name}, **base)
    allp = [base] + [dict(base, **v) for v in variants]
    paths = {}

    def run(j):
        before = neutral(tasklib.dumpfile(fn))
        t = utils.create_task(dependencies=proc, **copy.deepcopy(allp[j]))
        t.run()
        ctx.trans(1)
        ctx.tick(1, "runs")
        case = {"real": name}
        if not t.done:
            ctx.fail("real:%s:%d:done" % (name, j), case, "task %r is not executed" % (allp[j],))
            return
        after = neutral(tasklib.dumpfile(fn))
        path = t.output.path
        if j in paths:
            if path != paths[j]:
                ctx.fail("real:%s:%d:again" % (name, j), case, "second run of %r has result %s, the first %s" % (allp[j], path, paths[j]))
            if after != before:
                ctx.fail("real:%s:%d:touched" % (name, j), case, "second run of %r changes %s" % (allp[j], tasklib.diff(before, after)))
        else:
            if path in paths.values():
                ctx.fail("real:%s:%d:shared" % (name, j), case, "%r shares result %s with different parameters" % (allp[j], path))
            rel = path.strip("/")
            rest = {k: v for k, v in after.items() if k != rel and not k.startswith(rel + "/")}
            for k in ("entry0001/end_time",):
                if k not in before:
                    rest.pop(k, None)
            if rest != before:
                ctx.fail("real:%s:%d:others" % (name, j), case, "run of %r changes %s" % (allp[j], tasklib.diff(before, rest)))
            got = nxfs_factory(path, fn).config.read()
            for k, v in allp[j].items():
                if k not in got or got[k] != v:
                    ctx.fail("real:%s:%d:stored" % (name, j), case, "parameter %s=%r is stored as %r" % (k, v, got.get(k)))
            paths[j] = path
        ctx.state((name, tuple(sorted(paths.items()))))

    for j in range(len(allp)):
        run(j)
    for j in range(len(allp)):
        run(j)
    ctx.trace(1)


def nxfs_factory(path, fn):
    from spectrocrunch.io import nxfs

    return nxfs.factory(nxfs.Path(path, h5file=fn))


# ----------------------------------------------------------------


def worker_init():
    tasklib.quiet()
    light()


FEW = ["A", "B", "in2", "n3", "raw", "onA", "other"]
PLAN = {
    "quick": [(0, 3, FEW), (0, 2, list(TASKS)), (1, 2, list(TASKS))],
    "thorough": [(0, 4, FEW), (0, 3, list(TASKS)), (1, 3, list(TASKS)), (2, 3, list(TASKS)), (3, 3, list(TASKS))],
}
NV = 16


def shards(tier):
    out = []
    for start, depth, tasks in PLAN[tier]:
        for first in tasks:
            if first != "onA":
                out.append({"start": start, "first": first, "depth": depth, "tasks": tasks})
    out += [{"real": n} for n in REAL]
    out += [{"values": i} for i in range(NV)]
    return out


def run_shard(shard, ctx):
    ctx.current = shard
    if "real" in shard:
        return run_real(ctx, shard["real"])
    if "values" in shard:
        return run_values(ctx, shard["values"], NV)
    s = Search(ctx, shard["start"])
    s.run(shard["depth"], shard["first"], shard["tasks"])
    ctx.sample(shard)


def replay(case, ctx):
    if "real" in case:
        return run_real(ctx, case["real"])
    if "values" in case:
        return run_values(ctx, case["values"][0], 10**6)
    s = Search(ctx, case["start"])
    model = {"results": {}, "where": {}}
    for i, op in enumerate(case["history"]):
        model = s.apply(model, op, case["history"][: i + 1])
        if model is None:
            break
