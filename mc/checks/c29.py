"""C29: preparation of Bliss MCA data: dead-time correction, adding, counters; against numpy."""

import itertools
import os
import warnings

import h5py
import numpy as np

from mc.checks import tasklib

LEVEL = "model_checking"
BOUNDS = {
    "quick": "scans of 1 to 3 dimensions and 3 to 4 channels, 2 detectors and 2 counters: all combinations of correction, adding, selection of detectors (7 lists of patterns), kind of live time of each detector (live_time, output_live_time, both, rates, none), data type, live time type, preset time, chunking, in the same file or another one; missing counters, live times and detectors refused without a trace; sequences of 2 tasks with different parameters in one entry",
    "thorough": "the full product of the above, 3 detectors, sequences of 3 tasks",
}
ASSUMPTIONS = ["live times are not zero", "patterns of detectors are regular expressions for the start of the name"]

SHAPES = [(2, 3, 4), (5, 3), (1, 2, 2, 3)]
SELECT = [["mca.*"], ["mca00"], ["mca01", "mca00"], ["mca00", "mca.*"], ["mca0[01]$"], ["nothing"], ["nothing", "mca01"]]
LIVE = ["live_time", "output_live_time", "both", "rates", "none"]
MODES = [(True, True), (True, False), (False, False), (False, True)]  # dtcor, add


def worker_init():
    tasklib.quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def names(nd):
    return ["mca%02d" % i for i in range(nd)]


def make(fn, shape, lives, dtype, ltype):
    """Returns data and live times"""
    n = int(np.prod(shape))
    m = n // shape[-1]
    datas, lts, extra = {}, {}, {}
    str_ = h5py.string_dtype()
    with h5py.File(fn, "w") as f:
        f.attrs["NX_class"] = "NXroot"
        e = f.create_group("scan1")
        e.attrs["NX_class"] = "NXentry"
        e.create_dataset("start_time", data="2020-01-01T00:00:00+00:00", dtype=str_)
        inst = e.create_group("instrument")
        inst.attrs["NX_class"] = "NXinstrument"
        for i, (name, live) in enumerate(zip(names(len(lives)), lives)):
            det = inst.create_group(name)
            det.attrs["NX_class"] = "NXdetector"
            data = ((np.arange(n) * 3 + 7 * i) % 13 + 1).reshape(shape).astype(dtype)
            det["data"] = data
            datas[name] = data
            a = (2 + (np.arange(m) * (i + 2)) % 5).reshape(shape[:-1])
            b = (1 + (np.arange(m) + i) % 3).reshape(shape[:-1])
            if np.dtype(ltype).kind == "f":
                a = a * 0.25
            a, b = a.astype(ltype), b.astype(ltype)
            lt = None
            if live == "both":
                det["live_time"] = a
                det["output_live_time"] = a + b
                lt = a
            elif live == "rates":
                det["events"] = a
                det["trigger_count_rate"] = b
                lt = a.astype(float) / b
            elif live != "none":
                det[live] = a
                lt = a
            lts[name] = lt
            for k in det:
                extra[name + "/" + k] = det[k][()]
        for i, c in enumerate(("I0", "xmap")):
            det = inst.create_group(c)
            det.attrs["NX_class"] = "NXdetector"
            det["data"] = (np.arange(m) * (i + 1.5)).reshape(shape[:-1])
            extra[c] = det["data"][()]
    return datas, lts, extra


def selected(dets, patterns):
    import re

    return [d for d in dets if any(re.match(p, d) for p in patterns)]


class Chunks:
    """Memory limit of the library"""

    def __init__(self, small):
        self.small = small

    def __enter__(self):
        from spectrocrunch.math import slicing

        self.mod = slicing
        self.orig = getattr(slicing, "find_slice_axis", None)
        if self.orig is not None and self.small:
            slicing.find_slice_axis = lambda shape, dtype, mb_threshold=None: self.orig(shape, dtype, self.small / 1024.0**2)

    def __exit__(self, *args):
        if self.orig is not None:
            self.mod.find_slice_axis = self.orig


def results(fn, path):
    mca, counters = {}, {}
    with h5py.File(fn, "r") as f:
        g = f[path + "/results"]
        for k in g:
            o = g[k]
            if not isinstance(o, h5py.Group):
                continue
            t = o["type"][()] if "type" in o else b""
            t = t.decode() if isinstance(t, bytes) else str(t)
            if t == "mca":
                mca[k] = (o["data"][()], float(o["preset_time"][()]))
            else:
                counters[k] = o["data"][()]
    return mca, counters


def run(fn, out, params, chunk=0):
    from spectrocrunch.process.utils import create_task
    from spectrocrunch.io import nxfs

    e = nxfs.Path("/", h5file=fn).nxroot()["scan1"]
    parent = nxfs.Path("/", h5file=out).nxroot().nxentry(name="out")
    try:
        with Chunks(chunk):
            task = create_task(dependencies=e, method="blissmcapre", outputparent=parent, **params)
            task.run()
        if not task.done:
            return RuntimeError("not done")
        return task.output.path
    except Exception as ex:
        return ex


def expected(datas, lts, params):
    """None: refused"""
    dets = selected(sorted(datas), params["detectors"])
    dtcor, add = params.get("dtcor", True), params.get("add", True)
    suffix = params.get("detector_suffix", "cor")
    if not dets or (add and not dtcor):
        return None
    if dtcor and any(lts[d] is None for d in dets):
        return None
    out = {}
    for d in dets:
        v = datas[d].astype(float)
        if dtcor:
            v = v * params["preset_time"] / lts[d].astype(float)[..., None]
        out[d + suffix] = v
    if add:
        out = {"mca" + suffix: sum(out.values())}
    return out


def check(ctx, shape, lives, dtype, ltype, paramslist, chunk, samefile, case):
    ctx.tick()
    ctx.state(repr(sorted(case.items(), key=str)))
    ctx.current = case
    fn = os.path.join(ctx.scratch, "in.h5")
    out = fn if samefile else os.path.join(ctx.scratch, "out.h5")
    for x in (fn, out):
        if os.path.exists(x):
            os.remove(x)
    datas, lts, extra = make(fn, shape, lives, dtype, ltype)
    source = tasklib.under(tasklib.dumpfile(fn), "scan1")
    done = {}
    for params in paramslist:
        ctx.trans(1)
        ctx.trace(1)
        what = "blissmcapre(%s) on data %s %s, live times %s %s, chunks %s" % (", ".join("%s=%r" % kv for kv in sorted(params.items())), shape, dtype, lives, ltype, chunk)
        sig = "dtcor=%s add=%s live=%s" % (params.get("dtcor"), params.get("add"), sorted(set(lives)))
        before = left(out)
        r = run(fn, out, params, chunk)
        if tasklib.under(tasklib.dumpfile(fn), "scan1") != source:
            ctx.fail("input-modified " + sig, case, "%s: input changed: %s" % (what, tasklib.diff(source, tasklib.under(tasklib.dumpfile(fn), "scan1"))))
            return
        exp = expected(datas, lts, params)
        missing = [c for c in params.get("counters", []) if c not in extra]
        if exp is None or missing:
            ctx.outcome("refused")
            if not isinstance(r, Exception):
                ctx.fail("accepted " + sig, case, "%s: not refused" % what)
                return
            after = left(out)
            if after != before:
                ctx.fail("left-behind " + sig, case, "%s: refused but left behind %s" % (what, sorted(after - before)))
            continue
        ctx.outcome("done %d" % len(exp))
        if isinstance(r, Exception):
            ctx.fail("failed %s %s" % (type(r).__name__, sig), case, "%s: %s %s" % (what, type(r).__name__, r))
            return
        if r in done:
            if done[r][0] != params:
                ctx.fail("replaced", case, "%s: saved as %s, used for other parameters" % (what, r))
                return
        done[r] = (params, exp, what, sig)
        for path, (params_, exp_, what_, sig_) in done.items():
            mca, counters = results(out, path)
            if set(mca) != set(exp_):
                ctx.fail("names " + sig_, case, "%s: detectors %s instead of %s" % (what_, sorted(mca), sorted(exp_)))
                return
            for k, v in exp_.items():
                got, preset = mca[k]
                if got.shape != v.shape or not np.allclose(got, v, rtol=2e-6, atol=0):
                    ctx.fail("value %s data=%s lt=%s preset=%s" % (sig_, np.dtype(dtype).kind, np.dtype(ltype).kind, type(params_["preset_time"]).__name__), case, "%s: %s is %s %s instead of %s" % (what_, k, got.dtype, got.tolist(), v.tolist()))
                    return
                if preset != params_["preset_time"]:
                    ctx.fail("preset", case, "%s: preset time %s" % (what_, preset))
            expc = {c.split("/")[-1]: extra[c] for c in params_.get("counters", [])}
            if set(counters) != set(expc) or any(not np.array_equal(counters[c], expc[c]) for c in expc):
                ctx.fail("counters", case, "%s: counters %s instead of %s" % (what_, counters, expc))
                return


def left(fn):
    """Names of everything in the output entry"""
    if not os.path.exists(fn):
        return set()
    with h5py.File(fn, "r") as f:
        if "out" not in f:
            return set()
        out = set()

        def walk(g, p):
            for k in g:
                out.add(p + "/" + k)
                if isinstance(g.get(k, getlink=True), h5py.HardLink) and isinstance(g[k], h5py.Group):
                    walk(g[k], p + "/" + k)

        walk(f["out"], "")
        return out - {"/start_time", "/end_time"}


COUNTERS = [[], ["I0"], ["I0", "xmap"], ["mca00/data"], ["xmap", "I1"]]


def cases(tier):
    """Combinations: (shape, lives, dtype, ltype, params, chunk, samefile)"""
    t = tier == "thorough"
    k = 0
    for (dtcor, add), live in itertools.product(MODES, itertools.product(LIVE, repeat=2)):
        for sel in SELECT:
            k += 1
            if not t and k % 4 and (sel == SELECT[5] or live[0] == live[1]):
                continue
            if not t and add and not dtcor and k % 10:
                continue
            shape = SHAPES[k % 3]
            dtype = ("u4", "f4", "i8", "f8", "u2")[k % 5]
            ltype = ("f8", "f4", "i4")[(k // 2) % 3]
            preset = (0.5, 2, 3, 1.5)[(k // 3) % 4]
            chunk = (0, 8, 60)[(k // 5) % 3]
            params = {"detectors": sel, "preset_time": preset, "dtcor": dtcor, "add": add, "counters": COUNTERS[(k // 7) % 5] if k % 2 else []}
            if k % 3 == 0:
                params["detector_suffix"] = "X"
            yield k, shape, live, dtype, ltype, [params], chunk, bool((k // 3) % 2)
    # types, in full
    for (dtcor, add), dtype, ltype, preset, chunk in itertools.product(MODES[:2], ("u2", "u4", "i8", "f4", "f8"), ("i4", "f4", "f8"), (1, 2, 0.5), (0, 8)):
        k += 1
        if not t and chunk and k % 3:
            continue
        yield k, SHAPES[k % 3], ("live_time", "rates") if k % 2 else ("output_live_time", "live_time"), dtype, ltype, [{"detectors": ["mca"], "preset_time": preset, "dtcor": dtcor, "add": add}], chunk, False
    # sequences
    one = [
        {"detectors": ["mca"], "preset_time": 0.5},
        {"detectors": ["mca"], "preset_time": 2},
        {"detectors": ["mca"], "preset_time": 0.5, "add": False, "counters": ["I0"]},
        {"detectors": ["mca01"], "preset_time": 0.5},
        {"detectors": ["mca"], "preset_time": 0.5, "counters": ["I0", "gone"]},
        {"detectors": ["mca"], "preset_time": 0.5, "add": False, "dtcor": False, "counters": ["I0"]},
    ]
    for seq in itertools.product(one, repeat=3 if t else 2):
        for same in (False, True):
            k += 1
            yield k, SHAPES[k % 2], ("live_time", "rates"), "u4", "f8", list(seq), 0, same
    if t:
        for live in itertools.product(LIVE, repeat=3):
            for dtcor, add in MODES:
                for sel in SELECT + [["mca00", "mca02"], ["mca0[02]"]]:
                    k += 1
                    yield k, SHAPES[k % 3], live, "u4", "f8", [{"detectors": sel, "preset_time": 0.5, "dtcor": dtcor, "add": add, "counters": ["I0"]}], (0, 8, 60)[k % 3], bool(k % 2)


NPART = {"quick": 32, "thorough": 160}


def shards(tier):
    return [{"tier": tier, "part": i, "of": NPART[tier]} for i in range(NPART[tier])]


def run_shard(shard, ctx):
    for i, (k, shape, lives, dtype, ltype, paramslist, chunk, same) in enumerate(cases(shard["tier"])):
        if i % shard["of"] != shard["part"]:
            continue
        case = {"shape": shape, "lives": list(lives), "dtype": dtype, "ltype": ltype, "params": paramslist, "chunk": chunk, "same": same}
        check(ctx, shape, lives, dtype, ltype, paramslist, chunk, same, case)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    check(ctx, tuple(case["shape"]), case["lives"], case["dtype"], case["ltype"], case["params"], case["chunk"], case["same"], case)
