"""C05: interleavings of task runs that write to the same entry. A switch is
possible whenever a task is about to open the file (it is locked for others
while open); the process is forked at every such point."""

import gc
import json
import os
import random
import shutil
import threading
import traceback

import h5py
import numpy as np

from mc.checks import tasklib

LEVEL = "model_checking"
BOUNDS = {
    "quick": "2 task runs with one preemption at every file opening: equal tasks, different tasks with one name, a new output file, equal temporary names, a failing task (both orders), chained tasks (both orders); equal tasks with two preemptions at every pair of openings after which the file differs; 3 runs with one preemption",
    "thorough": "the same, two preemptions for 4 scenarios (second one at every opening for writing), a task with another name, 3 runs with two preemptions, real tasks (crop, replace)",
}
ASSUMPTIONS = [
    "a task that has the file open excludes the others (HDF5 file locking); each access is atomic",
]
TECHNIQUE = "stateless model checking of the real code under a controlled scheduler: all interleavings up to a preemption bound, forking at every switch point"


class Sched:
    """Turns of the tasks: one runs, the others wait at an opening of the file"""

    def __init__(self):
        self.on = False
        self.depth = {}
        self.callback = None

    def opening(self, mode):
        if not self.on:
            return
        if self.depth.get(threading.get_ident(), 0) == 0 and self.callback:
            self.callback(mode)

    def opened(self, n):
        me = threading.get_ident()
        self.depth[me] = self.depth.get(me, 0) + n


S = Sched()


def install():
    init, close = h5py.File.__init__, h5py.File.close

    def newinit(self, name, mode="r", *a, **k):
        if not isinstance(name, (str, bytes)):
            return init(self, name, mode, *a, **k)
        S.opening(mode)
        init(self, name, mode, *a, **k)
        S.opened(1)

    def newclose(self):
        if self.id.valid:
            S.opened(-1)
        return close(self)

    h5py.File.__init__ = newinit
    h5py.File.close = newclose


def classes():
    from spectrocrunch.process import nxprocess

    global Light, Failing
    if "Light" in globals():
        return Light, Failing

    class Light(nxprocess.Task):
        def _parameters_defaults(self):
            super()._parameters_defaults()
            self.required_parameters |= {"a"}

        def _execute(self):
            nxdata = self.temp_nxresults.nxdata("d")
            nxdata.add_signal("S", data=np.arange(3.0) + self.parameters["a"])
            nxdata.add_signal("T", data=np.arange(3.0))

    class Failing(Light):
        def _execute(self):
            super()._execute()
            raise RuntimeError("fails")

    globals()["Light"], globals()["Failing"] = Light, Failing
    return Light, Failing


class Case:
    """Tasks of a scenario: each a function that makes and runs one"""

    def __init__(self, name, d):
        from spectrocrunch.io import nxfs
        from spectrocrunch.process import utils

        Light, Failing = classes()
        self.name, self.d = name, d
        self.fn = os.path.join(d, "data.h5")
        self.outfn, self.entry = self.fn, "entry0001"
        tasklib.small_input(self.fn, groups=(("detector00", ("A", "B")),), shape=(2, 2, 3))
        src = "/entry0001/fromraw.1"

        def task(_task=Light, method="light", dep=src, outputparent=None, **par):
            def make():
                kw = dict(par)
                if outputparent:
                    kw["outputparent"] = nxfs.Path(outputparent[1], h5file=outputparent[0])
                dependency = dep() if callable(dep) else nxfs.factory(nxfs.Path(dep, h5file=self.fn))
                return utils.create_task(method=method, _task=_task, dependencies=dependency, **kw)

            return make

        self.same = True
        self.fails = set()
        self.before = None
        if name == "equal":
            self.tasks = [task(a=1), task(a=1)]
        elif name == "samename":
            self.tasks = [task(a=1), task(a=2)]
        elif name == "othername":
            self.tasks = [task(a=1), task(a=1, name="other")]
        elif name == "newfile":
            self.outfn = os.path.join(d, "sub", "out.h5")
            out = (self.outfn, "/entry0001")
            self.tasks = [task(a=1, outputparent=out), task(a=2, outputparent=out)]
        elif name == "newfile_equal":
            self.outfn = os.path.join(d, "sub", "out.h5")
            out = (self.outfn, "/entry0001")
            self.tasks = [task(a=1, outputparent=out), task(a=1, outputparent=out)]
        elif name == "failing":
            self.tasks = [task(a=1, _task=Failing), task(a=1)]
            self.fails = {0}
        elif name == "failing_other":
            self.tasks = [task(a=1, _task=Failing), task(a=2)]
            self.fails = {0}
        elif name == "chain":
            first = task(a=1)
            self.tasks = [first, task(a=1, dep=lambda: first())]
        elif name == "three":
            self.tasks = [task(a=1), task(a=1), task(a=2)]
        elif name == "threeequal":
            self.tasks = [task(a=1), task(a=1), task(a=1)]
        elif name == "real":
            self.tasks = [
                task(_task=None, method="crop", reference="A", roi=[(0, 1), (1, 3)], default="B"),
                task(_task=None, method="crop", reference="A", roi=[(0, 1), (1, 3)], default="B"),
            ]
        elif name == "real2":
            self.tasks = [
                task(_task=None, method="crop", reference="A", roi=[(0, 1), (1, 3)], name="r"),
                task(_task=None, method="replace", old=1, new=2, name="r"),
            ]
        else:
            raise ValueError(name)
        self.start = tasklib.dumpfile(self.fn)

    def run(self, i):
        t = self.tasks[i]()
        t.run()
        return t


TWO = ["equal", "samename", "newfile", "newfile_equal", "failing", "failing_other", "chain", "othername"]


def objectid(fn, path):
    """Identifies an object in the file: another one after replacing"""
    fid = h5py.h5f.open(fn.encode(), h5py.h5f.ACC_RDONLY)
    try:
        return int(h5py.h5o.get_info(fid, path.encode()).addr)
    except KeyError:
        return None
    finally:
        fid.close()


class Explorer:
    def __init__(self, ctx, name, order):
        self.ctx, self.name, self.order = ctx, name, order
        self.d = os.path.join(ctx.scratch, "c05")
        shutil.rmtree(self.d, ignore_errors=True)
        os.mkdir(self.d)
        random.seed(7)
        self.case = Case(name, self.d)
        self.child = None
        self.where = {}
        self.refs()

    def files(self):
        out = {}
        for root, _, names in os.walk(self.d):
            out[root] = None
            for n in names:
                p = os.path.join(root, n)
                with open(p, "rb") as f:
                    out[p] = f.read()
        return out

    def restore(self, snap):
        for root, ds, names in os.walk(self.d, topdown=False):
            for n in names:
                if os.path.join(root, n) not in snap:
                    os.remove(os.path.join(root, n))
            if root not in snap:
                os.rmdir(root)
        for p, data in snap.items():
            if data is None:
                os.makedirs(p, exist_ok=True)
            else:
                with open(p, "wb") as f:
                    f.write(data)

    def refs(self):
        """Output of each task when it runs alone (chained ones: after the first)"""
        self.ref = {}
        snap = self.files()
        for i in range(len(self.case.tasks)):
            if i in self.case.fails:
                continue
            if self.name == "chain" and i:
                self.case.run(0)
            t = self.case.run(i)
            if not t.done:
                raise RuntimeError("task %d alone fails" % i)
            self.ref[i] = (t.checksum, content(tasklib.dumpfile(self.case.outfn, t.output.path)))
            self.restore(snap)

    # ---- what must hold when all runs ended
    def judge(self, done):
        bad = []
        case = self.case
        after = tasklib.dumpfile(case.outfn) or {}
        outputs = {}
        for i, (task, exc) in sorted(done.items()):
            if exc is not None:
                bad.append("run of task %d raises %r" % (i, exc))
                continue
            if i in case.fails and not any(j != i and self.same(i, j) for j in done):
                if task.done:
                    bad.append("failing task %d is done" % i)
                continue
            if not task.done:
                if self.name == "chain" and i == 1:
                    continue  # not ready at the time
                if i in case.fails:
                    continue
                bad.append("task %d is not done" % i)
                continue
            path = task.output.path
            outputs[i] = path
            out = tasklib.dumpfile(case.outfn, path)
            if i not in self.ref:
                continue
            if out is None:
                bad.append("output %s of task %d does not exist" % (path, i))
                continue
            d = tasklib.diff(self.ref[i][1], content(out))
            if d:
                bad.append("output %s of task %d is not complete: %s" % (path, i, d))
        for i in outputs:
            for j in outputs:
                if i < j and i in self.ref and j in self.ref:
                    if (self.ref[i][0] == self.ref[j][0]) != (outputs[i] == outputs[j]):
                        bad.append("tasks %d and %d have outputs %s and %s" % (i, j, outputs[i], outputs[j]))
        # a finished output is not replaced
        for i, (path, addr) in self.where.items():
            if i in outputs and objectid(case.outfn, path) != addr:
                bad.append("output %s of the finished task %d has been replaced" % (path, i))
        # nothing else
        known = {p.strip("/") for p in outputs.values()}
        extra = sorted(
            p
            for p, v in after.items()
            if not any(p == k or p.startswith(k + "/") for k in known)
            and p not in (".", case.entry, case.entry + "/start_time", case.entry + "/end_time")
            and not (case.outfn == case.fn and p in case.start)
        )
        if extra:
            bad.append("left: %s" % extra[:4])
        begin = case.start
        now = tasklib.dumpfile(case.fn)
        for p, v in begin.items():
            w = now.get(p)
            if v[0] == "group" and w and w[0] == "group":
                v = ("group", {k: x for k, x in v[1].items() if k != "default"})
                w = ("group", {k: x for k, x in w[1].items() if k != "default"})
            if v != w:
                bad.append("input changed: %s %r -> %r" % (p, v, w))
                break
        if case.outfn != case.fn:
            if set(now) != set(begin):
                bad.append("input file got %s" % sorted(set(now) - set(begin))[:3])
        for root, ds, names in os.walk(self.d):
            for n in names:
                if os.path.join(root, n) not in (case.fn, case.outfn):
                    bad.append("left file " + n)
        info = {"outputs": sorted(outputs.values()), "n": len(outputs)}
        return bad, info

    def same(self, i, j):
        k = [self.case.tasks[x]().checksum for x in (i, j)]
        return k[0] == k[1]

    def execute(self, i, done, seed=None):
        if seed is not None:
            random.seed(seed)
        try:
            t = self.case.run(i)
            done[i] = (t, None)
            if t.done and i not in self.case.fails:
                self.where[i] = (t.output.path, objectid(self.case.outfn, t.output.path))
        except BaseException as e:  # noqa
            done[i] = (None, e)

    # ---- one preemption: at each point of the first task a child runs the others
    def points(self, select, seeds, plan):
        """plan(index) -> list of second-level schedules to fork at this point"""
        first, rest = self.order[0], self.order[1:]
        self.n = 0
        self.changed = []
        last = [self.files()]

        def callback(mode):
            i = self.n
            self.n += 1
            cur = self.files()
            new = cur != last[0] or i == 0
            last[0] = cur
            if new:
                self.changed.append(i)
            if not select(i):
                return
            for sched in plan(i, mode, new):
                self.fork(i, sched, first, rest, seeds, cur)
                if self.child:
                    return

        done = {}
        gc.collect()
        gc.disable()
        S.on, S.callback = True, callback
        try:
            self.execute(first, done, seeds)
        finally:
            S.on = False
            gc.enable()
        if self.child is None:
            if done[first][1] is not None:
                raise done[first][1]
            return
        w, sched, i = self.child
        self.finish(done, w)

    def finish(self, done, w):
        try:
            if getattr(self, "second", None) is not None:
                self.second.resume()
            done.update(self.childdone)
            data = json.dumps(self.judge(done))
        except BaseException:  # noqa
            data = json.dumps([["cannot be judged: " + traceback.format_exc()[-1500:]], {}])
        try:
            os.write(w, data.encode()[:60000])
        finally:
            os._exit(0)

    def fork(self, i, sched, first, rest, seeds, snap):
        for attempt in range(2):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                self.child = (w, sched, i)
                self.childdone = {}
                S.callback = None
                S.depth = {}
                st = random.getstate()
                if sched == "all":
                    for j in rest:
                        self.execute(j, self.childdone, seeds)
                else:
                    self.second = Second(self, rest, sched, seeds)
                    self.second.start()
                random.setstate(st)
                return
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            self.restore(snap)
            if data and not json.loads(data)[0]:
                break
        self.report(i, sched, seeds, data)

    def report(self, i, sched, seeds, data):
        ctx = self.ctx
        ctx.tick(1, "schedules")
        ctx.trace(1)
        case = {"scenario": self.name, "order": list(self.order), "index": i, "sched": sched, "seed": seeds}
        ctx.current = case
        if not data:
            ctx.fail("%s:died" % self.name, case, "process died")
            return
        bad, info = json.loads(data)
        ctx.trans(1)
        ctx.state((self.name, tuple(self.order), i, sched if sched == "all" else tuple(sched)))
        ctx.outcome("%s %s" % (self.name, info.get("outputs")))
        for msg in bad:
            ctx.fail(
                "%s:%s" % (self.name, msg[:40]),
                case,
                "%s: task %d interrupted at its file access %d by %s (%s), then finished: %s"
                % (self.name, self.order[0], i, list(self.order[1:]), "to the end" if sched == "all" else "until access %s" % sched, msg),
            )


class Second:
    """A second run in a thread, up to one of its file accesses"""

    def __init__(self, ex, rest, sched, seeds):
        self.ex, self.rest, self.stop = ex, rest, sched[0]
        self.seeds = seeds
        self.back = threading.Semaphore(0)
        self.go = threading.Semaphore(0)
        self.n = 0

    def start(self):
        self.thread = threading.Thread(target=self.body, daemon=True)
        S.callback = self.callback
        self.thread.start()
        self.back.acquire()
        S.callback = None

    def callback(self, mode):
        if threading.current_thread() is not self.thread:
            return
        i = self.n
        self.n += 1
        if i == self.stop:
            self.back.release()
            self.go.acquire()

    def body(self):
        self.ex.execute(self.rest[0], self.ex.childdone, self.seeds)
        self.back.release()

    def resume(self):
        self.go.release()
        self.thread.join()
        for j in self.rest[1:]:
            self.ex.execute(j, self.ex.childdone, None)


def worker_init():
    tasklib.quiet()
    install()
    classes()
    import time

    from spectrocrunch.io import h5fs
    import spectrocrunch.process.utils  # noqa
    from spectrocrunch.process import nxcrop, nxreplace  # noqa

    h5fs.sleep = time.sleep = lambda t: None


NPARTS = 8


def shards(tier):
    out = []
    for p in range(NPARTS):
        for name in TWO:
            for order in ([0, 1], [1, 0]):
                if order == [1, 0] and name in ("equal", "newfile_equal", "samename", "newfile", "othername"):
                    continue  # symmetric
                if tier == "quick" and (name == "othername" or (order == [1, 0] and name == "failing_other")):
                    continue
                out.append({"scenario": name, "order": order, "part": p, "two": None, "seed": None})
        out.append({"scenario": "equal", "order": [0, 1], "part": p, "two": None, "seed": 3})
        out.append({"scenario": "samename", "order": [0, 1], "part": p, "two": None, "seed": 3})
        out.append({"scenario": "three", "order": [0, 1, 2], "part": p, "two": None, "seed": None})
        out.append({"scenario": "equal", "order": [0, 1], "part": p, "two": "changed", "seed": None})
        if tier == "thorough":
            out.append({"scenario": "three", "order": [2, 0, 1], "part": p, "two": None, "seed": None})
            for name in ("real", "real2"):
                out.append({"scenario": name, "order": [0, 1], "part": p, "two": None, "seed": None})
            out.append({"scenario": "real2", "order": [1, 0], "part": p, "two": None, "seed": None})
            for name in ("equal", "samename", "newfile", "failing"):
                out.append({"scenario": name, "order": [0, 1], "part": p, "two": "writes", "seed": None})
            out.append({"scenario": "threeequal", "order": [0, 1, 2], "part": p, "two": "changed", "seed": None})
    return out


def run_shard(shard, ctx):
    ctx.current = shard
    ex = Explorer(ctx, shard["scenario"], shard["order"])
    if shard["two"]:
        # accesses of the second task, from running it alone
        snap = ex.files()
        acc, changed, last = [], [], [snap]

        def callback(mode):
            cur = ex.files()
            if cur != last[0]:
                changed.append(len(acc))
            last[0] = cur
            acc.append(mode)

        S.on, S.callback = True, callback
        ex.case.run(shard["order"][1])
        S.on = False
        ex.restore(snap)
        if shard["two"] == "changed":
            stops = changed
        else:
            stops = [k for k, m in enumerate(acc) if m != "r"]
        pick = lambda i, mode, new: [[m] for m in stops] if (new if shard["two"] == "changed" else True) else []  # noqa
    else:
        pick = lambda i, mode, new: ["all"]  # noqa
    ex.points(lambda i: i % NPARTS == shard["part"], shard["seed"], pick)
    ctx.sample(dict(shard, accesses=ex.n, changing=len(ex.changed)))
    shutil.rmtree(ex.d)


def replay(case, ctx):
    if "sched" not in case:
        return run_shard(case["shard"] if "shard" in case else case, ctx)
    ex = Explorer(ctx, case["scenario"], case["order"])
    ex.points(lambda i: i == case["index"], case["seed"], lambda i, mode, new: [case["sched"]])
    shutil.rmtree(ex.d)


def content(dump):
    """Without time stamps and marks of the default plot"""
    out = {}
    for p, v in (dump or {}).items():
        if v[0] == "time":
            continue
        if v[0] == "group":
            v = ("group", {k: x for k, x in v[1].items() if k != "default"})
        out[p] = v
    return out
