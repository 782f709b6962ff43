"""C03: an error or a signal at every storage operation of a task. The task runs
once; at every operation the process is forked and the fault happens in the
child, with the files restored afterwards."""

import fcntl
import gc
import json
import os
import shutil
import signal
import sys
import traceback

import h5py
import numpy as np

from mc.checks import tasklib

LEVEL = "model_checking"
BOUNDS = {
    "quick": "crop, expression (sliced, in a new output file), align, replace (name taken by another result) and a task that writes files next to the HDF5 file: an I/O error before and SIGTERM before every storage operation of the run (file opening, creation, writing, renaming, removal, attribute change, data access); SIGINT and SIGHUP at every 4th one",
    "thorough": "9 scenarios (also minlog, resample, chained, crop of a copy in another entry, task re-run by the same object): error, SIGTERM, SIGINT, SIGHUP before and SIGTERM after every storage operation",
}
ASSUMPTIONS = [
    "one fault per run; the fault is raised where Python code calls h5py or os",
    "time stamps are not compared",
]
TECHNIQUE = "explicit-state model checking: exhaustive fault injection (crash points) into the real code by forking at every storage operation; runs reaching the same stored state share the re-run"


class Injected(OSError):
    pass


class Hub:
    def __init__(self):
        self.on = False
        self.callback = None

    def point(self, name, when):
        if self.on and self.callback:
            self.on = False
            try:
                self.callback(name, when)
            finally:
                if self.parent == os.getpid():
                    self.on = True


HUB = Hub()

POINTS = [
    (h5py.File, ["__init__", "close"]),
    (h5py.Group, ["create_group", "create_dataset", "__setitem__", "__delitem__", "move", "copy"]),
    (h5py.Dataset, ["__setitem__", "__getitem__", "resize"]),
    (h5py.AttributeManager, ["__setitem__", "__delitem__"]),
    (os, ["mkdir", "makedirs", "rename", "remove", "rmdir", "unlink", "symlink"]),
    (shutil, ["move", "rmtree", "copy", "copy2", "copytree"]),
]
READS = {"File.__init__", "Dataset.__getitem__", "File.close"}


def install():
    for cls, names in POINTS:
        cname = cls.__name__
        for name in names:
            orig = getattr(cls, name, None)
            if orig is None:
                continue

            def make(orig, full):
                def wrapper(*a, **k):
                    if full == "File.__init__" and a and not isinstance(a[1] if len(a) > 1 else k.get("name"), (str, bytes)):
                        return orig(*a, **k)  # only wraps an identifier
                    HUB.point(full, "before")
                    r = orig(*a, **k)
                    HUB.point(full, "after")
                    return r

                wrapper.__name__ = name
                return wrapper

            setattr(cls, name, make(orig, cname + "." + name))


# ---------------------------------------------------------------- scenarios


_LOCAL = []


def localtask():
    """A task that also writes files next to the HDF5 file"""
    if not _LOCAL:
        from spectrocrunch.process import nxprocess

        class LocalFiles(nxprocess.Task):
            def _parameters_defaults(self):
                super(LocalFiles, self)._parameters_defaults()
                self.required_parameters.add("a")

            def _execute(self):
                local = self.temp_localpath
                local.mkdir()
                with open(local["one.txt"].path, "w") as f:
                    f.write("one")
                sub = local["sub"].mkdir()
                nxdata = self.temp_nxresults.nxdata("d")
                nxdata.add_signal("first", data=np.arange(3.0))
                with open(sub["two.txt"].path, "w") as f:
                    f.write("two")
                nxdata.add_signal("second", data=np.arange(3.0) + 1)

        _LOCAL.append(LocalFiles)
    return _LOCAL[0]


def scenario(name, d):
    """Returns a function that makes the task, files, (file, entry) of the output,
    the input paths that must not change"""
    from spectrocrunch.io import nxfs
    from spectrocrunch.process import utils

    fin = os.path.join(d, "in.h5")
    proc = tasklib.small_input(fin, groups=(("detector00", ("A", "B")),))
    out = (fin, "entry0001")
    kw = {}
    if name == "crop":
        par = {"method": "crop", "reference": "A", "roi": [(0, 2), (1, 3)], "default": "A"}
    elif name == "expression":
        fout = os.path.join(d, "sub", "out.h5")
        out = (fout, "entry0001")
        kw = {"outputparent": nxfs.Path("/entry0001", h5file=fout)}
        par = {"method": "expression", "expression": "{}+{B}", "sliced": True}
    elif name == "align":
        par = {"method": "align", "alignmethod": "max", "reference": "A", "refimageindex": 0}
    elif name == "replace":
        par = {"method": "replace", "old": 1, "new": 2, "name": "fromraw"}
    elif name == "minlog":
        par = {"method": "minlog", "skip": [{"method": "regex", "pattern": "B"}]}
    elif name == "resample":
        par = {"method": "resample", "encoders": {}}
    elif name == "chain":
        first = utils.create_task(dependencies=proc, method="crop", reference="A", roi=[(0, 1), (0, 2)])
        first.run()
        proc = first
        par = {"method": "minlog", "default": "A"}
    elif name == "localfiles":
        out = (fin, "entry0001")
        par = {"method": "localfiles", "_task": localtask(), "a": 1}
    elif name == "copyentry":
        kw = {"outputparent": nxfs.Path("/other", h5file=fin)}
        out = (fin, "other")
        par = {"method": "crop", "reference": "B", "roi": [(0, 2), (1, 2)]}
    elif name == "again":
        t = utils.create_task(dependencies=proc, method="crop", reference="A", roi=[(0, 2), (1, 3)])
        t.run()
        par = {"method": "crop", "reference": "A", "roi": [(0, 1), (1, 3)]}
    else:
        raise ValueError(name)

    def make():
        return utils.create_task(dependencies=proc, **par, **kw)

    return make, fin, out


QUICK = ["crop", "expression", "align", "replace", "localfiles"]
ALL = QUICK + ["minlog", "resample", "chain", "copyentry", "again"]


def files(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            st = os.lstat(p)
            with open(p, "rb") as f:
                out[p] = (st.st_ino, f.read())
    dirs = {root for root, _, _ in os.walk(d)}
    return out, dirs


def restore(d, snap):
    content, dirs = snap
    for root, ds, names in os.walk(d, topdown=False):
        for n in names:
            p = os.path.join(root, n)
            if p not in content:
                os.remove(p)
        if root not in dirs:
            os.rmdir(root)
    for p in dirs:
        os.makedirs(p, exist_ok=True)
    for p, (ino, data) in content.items():
        if not os.path.exists(p) or os.lstat(p).st_ino != ino:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
            continue
        with open(p, "r+b") as f:
            if f.read() != data:
                f.seek(0)
                f.write(data)
                f.truncate(len(data))


def tree(d):
    """files and directories, and the content of the HDF5 files"""
    out = {}
    for root, ds, names in os.walk(d):
        rel = os.path.relpath(root, d)
        out["dir:" + rel] = None
        for n in names:
            p = os.path.join(root, n)
            rp = os.path.normpath(os.path.join(rel, n))
            try:
                if n.endswith(".h5"):
                    out["file:" + rp] = tasklib.dumpfile(p)
                else:
                    with open(p, "rb") as f:
                        out["file:" + rp] = {".": ("content", f.read().decode("latin-1"))}
            except OSError:
                out["file:" + rp] = {".": ("unreadable",)}
    return out


def plain(dump):
    """Without time stamps and without the marking of the default plot"""
    if not isinstance(dump, dict):
        return dump
    out = {}
    for p, v in dump.items():
        if v[0] == "time":
            continue
        if v[0] == "group":
            v = ("group", {k: x for k, x in v[1].items() if k != "default"})
        out[p] = v
    return out


def compare(before, after, allowed):
    """Differences, apart from the (empty) parent of the output"""
    bad = []
    for k in sorted(set(before) | set(after)):
        a, b = plain(before.get(k)), plain(after.get(k))
        if k not in before:
            if k in allowed["new"]:
                if isinstance(b, dict):
                    left = {p: v for p, v in b.items() if p not in (".", allowed["entry"])}
                    if left:
                        bad.append("left in the new file: %r" % (sorted(left)[:5],))
            else:
                bad.append("left: " + k)
        elif k not in after:
            bad.append("removed: " + k)
        elif a != b:
            for msg in tasklib.diff(a, b):
                e = allowed["entry"]
                w = msg.split()
                if w[0] == "extra" and w[1] == e and k in allowed["files"]:
                    continue
                bad.append("%s: %s" % (k, msg))
    return bad


def unlock():
    """A forked process shares the locks of the files open in its parent: both
    do without"""
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + fd).endswith(".h5"):
                fcntl.flock(int(fd), fcntl.LOCK_UN)
        except OSError:
            pass


class Explorer:
    def __init__(self, ctx, name, kinds, part, nparts):
        self.ctx, self.name, self.kinds = ctx, name, kinds
        self.part, self.nparts = part, nparts
        self.d = os.path.join(ctx.scratch, "run")
        shutil.rmtree(self.d, ignore_errors=True)
        os.mkdir(self.d)
        tasklib.seed()
        self.make, self.fin, self.out = scenario(name, self.d)
        self.before = tree(self.d)
        rel = os.path.relpath(self.out[0], self.d)
        dirs = {"dir:" + os.path.dirname(rel)} if os.path.dirname(rel) else set()
        self.allowed = {"new": {"file:" + rel} | dirs, "files": {"file:" + rel}, "entry": self.out[1]}
        self.inputs = self.before["file:in.h5"]
        self.n = 0
        self.sites = {}
        self.rerun = set()

    def undisturbed(self):
        """The output of a run without fault, then everything back as it was"""
        snap = files(self.d)
        t = self.make()
        tasklib.seed()
        t.run()
        if not t.done:
            raise RuntimeError("undisturbed task fails")
        self.ref = tasklib.dumpfile(self.out[0], t.output.path)
        self.refpath = t.output.path
        self.refall = tree(self.d)
        restore(self.d, snap)
        if tree(self.d) != self.before:
            raise RuntimeError("restore failed")

    def others(self, after):
        """Everything apart from the output is as in an undisturbed run"""
        bad = []
        for k in sorted(set(self.refall) | set(after)):
            if k not in after or k not in self.refall:
                bad.append("left: " + k)
            else:
                a, b = plain(self.refall[k]), plain(after[k])
                if a != b:
                    bad.append("%s: %s" % (k, tasklib.diff(a, b)))
        return bad

    # ---- child
    def verdict(self, task, exc):
        bad = []
        after = tree(self.d)
        info = {"exc": type(exc).__name__}
        try:
            outdump = tasklib.dumpfile(self.out[0], self.refpath)
        except Exception as e:
            outdump = None
            bad.append("output cannot be read: %r" % (e,))
        exists = outdump is not None
        info["exists"] = exists
        if exists:
            d = tasklib.diff(plain(self.ref), plain(outdump))
            if d:
                bad.append("the output exists but is not complete: %s" % d)
            bad += self.others(after)
        else:
            bad += compare(self.before, after, self.allowed)
        info["digest"] = tasklib.hashlib.md5(repr(sorted((k, sorted(v.items()) if isinstance(v, dict) else v) for k, v in after.items())).encode()).hexdigest()
        info["done"] = bool(task.done)
        if info["done"] != exists and not bad:
            bad.append("done is %r but the output %s" % (task.done, "exists" if exists else "does not exist"))
        return bad[:5], info

    def again(self, task, same):
        """Run after the failure"""
        bad = []
        t = task if same else self.make()
        t.run()
        if not t.done:
            return ["task cannot be executed after the failure"]
        if t.output.path != self.refpath:
            bad.append("output after the failure is %s instead of %s" % (t.output.path, self.refpath))
        out = tasklib.dumpfile(self.out[0], t.output.path)
        d = tasklib.diff(plain(self.ref), plain(out))
        if d:
            bad.append("run after the failure differs: %s" % d)
        bad += ["run after the failure: " + x for x in self.others(tree(self.d))]
        return bad[:4]

    def fire(self, kind):
        if kind == "error":
            raise Injected(5, "Input/output error")
        signal.raise_signal(getattr(signal, kind))

    def callback(self, name, when):
        if name in READS and when == "after":
            return
        i = self.n
        self.n += 1
        full = name + ":" + when
        self.sites[full] = self.sites.get(full, 0) + 1
        if i % self.nparts != self.part:
            return
        for kind, every, whens in self.kinds:
            if when not in whens or (i // self.nparts) % every:
                continue
            if kind == "error" and (name == "File.close" or when == "after"):
                continue
            if kind != "error":
                h = signal.getsignal(getattr(signal, kind))
                if not callable(h) or h is signal.default_int_handler:
                    continue
            snap = files(self.d)
            for attempt in range(2):
                # what fails is tried twice: releasing HDF5 identifiers
                # depends on the garbage collector
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.child = (w, kind, full, i)
                    HUB.on = False
                    unlock()
                    self.fire(kind)
                    return  # the handler returned: go on
                os.close(w)
                with os.fdopen(r, "rb") as f:
                    data = f.read()
                os.waitpid(pid, 0)
                restore(self.d, snap)
                if data and not json.loads(data)[0]:
                    break
            if attempt and data and not json.loads(data)[0]:
                self.ctx.outcome("failed only once")
            self.report(kind, full, i, data)

    def report(self, kind, full, i, data):
        ctx = self.ctx
        ctx.tick(1, "schedules")
        ctx.trans(1)
        case = {"scenario": self.name, "kind": kind, "index": i}
        if not data:
            ctx.fail("%s:%s:%s:died" % (self.name, kind, full), case, "process died after %s at %s" % (kind, full))
            return
        bad, info = json.loads(data)
        ctx.state((self.name, info.get("digest"), info.get("exc"), info.get("done")))
        ctx.outcome("%s exists=%s" % (info.get("exc"), info.get("exists")))
        if info.get("reran"):
            ctx.trace(1)
            self.rerun.add(tuple(info["reran"]))
        for msg in bad:
            ctx.fail(
                "%s:%s:%s:%s" % (self.name, kind if kind == "error" else "signal", full, msg[:50]),
                case,
                "%s: %s at storage operation %d (%s): %s (exception of run(): %s)\n%s"
                % (self.name, kind, i, full, msg, info.get("exc"), info.get("where", "")),
            )

    def run(self):
        self.undisturbed()
        self.child = None
        task = self.make()
        tasklib.seed()
        exc = None
        HUB.callback = self.callback
        gc.collect()
        gc.disable()
        HUB.parent = os.getpid()
        HUB.on = True
        try:
            task.run()
        except BaseException as e:  # noqa
            exc = e
            if self.child is None:
                raise
        finally:
            HUB.on = False
        if self.child is None:
            gc.enable()
            if not task.done:
                raise RuntimeError("run without fault fails")
            final = tasklib.diff(self.ref, tasklib.dumpfile(self.out[0], task.output.path))
            if final:
                raise RuntimeError("forking disturbed the run: %s" % final)
            return
        # the child: judge
        w, kind, full, i = self.child
        try:
            bad, info = self.verdict(task, exc)
            info["where"] = "".join(traceback.format_exception(exc))[-600:] if exc else ""
            for same in (True, False):
                key = (info["digest"], same, info["done"])
                if not bad and key not in self.rerun:
                    snap = files(self.d)
                    bad = self.again(task, same)
                    info["reran"] = key
                    restore(self.d, snap)
                    break
            data = json.dumps([bad, info]).encode()
        except BaseException as e:  # noqa
            data = json.dumps([["cannot be judged: " + traceback.format_exc()[-1500:]], {"exc": type(e).__name__}]).encode()
        try:
            os.write(w, data[:60000])
        finally:
            os._exit(0)


def worker_init():
    import time

    tasklib.quiet()
    install()
    from spectrocrunch.io import h5fs

    # waiting for a lock: nobody else holds any
    h5fs.sleep = time.sleep = lambda t: None
    import spectrocrunch.process.utils  # noqa
    from spectrocrunch.process import nxalign, nxcrop, nxexpression, nxminlog, nxreplace, nxresample  # noqa


NPARTS = 12


def shards(tier):
    names = ALL if tier == "thorough" else QUICK
    return [{"scenario": s, "part": i} for i in range(NPARTS) for s in names]


def kinds(ctx):
    if ctx.thorough:
        return [("error", 1, ("before",)), ("SIGTERM", 1, ("before", "after")), ("SIGINT", 1, ("before",)), ("SIGHUP", 1, ("before",))]
    return [("error", 1, ("before",)), ("SIGTERM", 1, ("before",)), ("SIGINT", 4, ("before",)), ("SIGHUP", 4, ("before",))]


def run_shard(shard, ctx):
    ctx.current = shard
    e = Explorer(ctx, shard["scenario"], kinds(ctx), shard["part"], NPARTS)
    e.run()
    ctx.tick(1, "runs")
    ctx.sample({"scenario": e.name, "storage operations": e.n, "sites": e.sites})
    shutil.rmtree(e.d)


def replay(case, ctx):
    if "index" not in case:
        return run_shard(case["shard"], ctx)
    e = Explorer(ctx, case["scenario"], [(case["kind"], 1, ("before", "after"))], case["index"], 10**9)
    e.run()
    shutil.rmtree(e.d)
