"""C20: crop, replace, minus-log, copy and resample tasks on small grids, against
numpy on the loaded arrays."""

import itertools
import os
import warnings

import h5py
import numpy as np

from mc.checks import tasklib

LEVEL = "model_checking"
BOUNDS = {
    "quick": "tasks on grids of 1 to 3 dimensions with up to 5 signals of different type in 3 groups: all crop regions of a 2x3x4 grid per stack dimension, all masks of invalid pixels of a reference signal on 1x2x3, 2x3, 2x2x1 and 2x1x2 grids (3 kinds of invalid value; 2 modes alternating), every reference out of similar names, replacements of 8 values by 5 values, minus-log, copy, skip patterns; resampling along 1 and 2 of the axes with 7 encoder distortions, direction, resolution, offset, crop; chains of 2 tasks; sliced and not sliced alternate (crop, reference) or are both done",
    "thorough": "sliced and not sliced for all, larger grids of masks (3x4, 3x3, 2x2x2), all pairs of regions, all resample combinations, chains of 3 tasks",
}
ASSUMPTIONS = [
    "stack dimensions are not negative",
    "resampling is checked on data that are linear in the encoder positions (degree 1) and on its sampling grid",
]

SHAPES = {"1d": (5,), "2d": (3, 4), "3d": (2, 3, 4)}
GROUPS = {
    "1d": (("counters", (("A", "f4"), ("BA", "f8"))),),
    "2d": (("detector00", (("A", "f4"), ("BA", "f8"))), ("counters", (("C", "i4"),))),
    "3d": (("detector00", (("A", "f4"), ("BA", "f8"))), ("detector01", (("A", "f4"), ("B", "f8"))), ("counters", (("C", "i4"),))),
}
AXNAMES = ["z", "y", "x"]


def worker_init():
    tasklib.quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def axis_values(i, n, decreasing=False):
    v = 10.0 * i + np.arange(n) * (0.5 + i)
    return v[::-1] if decreasing else v


_templates = {}


def make_input(fn, groups, shape, values, stackdim=None, axes=None):
    """values: (group, name) -> array. The structure of the file is the same for all values"""
    from spectrocrunch.io import nxfs

    key = repr((fn, groups, shape, stackdim, sorted((k, str(v.dtype)) for k, v in values.items()), axes and [np.asarray(a).tolist() for a in axes]))
    if key not in _templates:
        proc = build_input(fn, groups, shape, values, stackdim=stackdim, axes=axes)
        with h5py.File(fn, "r") as f:
            sizes = [f[proc.path + "/results/%s/%s" % gs].shape == values[gs].shape for gs in values]
        if not all(sizes):
            return proc
        with open(fn, "rb") as f:
            _templates[key] = f.read(), proc.path
        return proc
    data, path = _templates[key]
    with open(fn, "wb") as f:
        f.write(data)
    with h5py.File(fn, "r+") as f:
        for g, signals in groups:
            for s, dtype in signals:
                f[path + "/results/%s/%s" % (g, s)][...] = values[(g, s)]
    return nxfs.Path("/", h5file=fn).nxroot()[path]


def build_input(fn, groups, shape, values, stackdim=None, axes=None):
    from spectrocrunch.io import nxfs

    if os.path.exists(fn):
        os.remove(fn)
    root = nxfs.Path("/", h5file=fn).nxroot()
    entry = root.nxentry(name="entry")
    par = {"name": "fromraw"}
    if stackdim is not None:
        par["stackdim"] = stackdim
    proc = entry.nxprocess("fromraw.1", parameters=par, searchallentries=False)
    for g, signals in groups:
        nxdata = proc.results.nxdata(g)
        for s, dtype in signals:
            nxdata.add_signal(s, data=values[(g, s)])
        names = AXNAMES[-len(shape) :]
        if axes is None:
            axes = [axis_values(i, n) for i, n in enumerate(shape)]
        nxdata.set_axes(*[(names[i], axes[i], {"units": "um", "title": "Axis " + names[i]}) for i in range(len(shape))])
    return proc


def default_values(groups, shape):
    out = {}
    n = int(np.prod(shape))
    k = 0
    for g, signals in groups:
        for s, dtype in signals:
            k += 1
            out[(g, s)] = ((np.arange(n) * 7 + 3 * k) % 11 + (0.0 if dtype == "i4" else 0.1) + 1).reshape(shape).astype(dtype)
    return out


def content(fn, path):
    """Signals and axes of the result, as any reader of the file sees them"""
    out, axes, classes = {}, {}, {}
    with h5py.File(fn, "r") as f:
        results = f[path]["results"]
        for g in results:
            node = results[g]
            if not isinstance(node, h5py.Group) or node.attrs.get("NX_class") != "NXdata":
                continue
            names = [node.attrs["signal"]] if "signal" in node.attrs else []
            names += list(np.atleast_1d(node.attrs.get("auxiliary_signals", [])))
            for s in names:
                s = s.decode() if isinstance(s, bytes) else str(s)
                out[(g, s)] = np.asarray(node[s][()])
            axs = []
            for a in np.atleast_1d(node.attrs.get("axes", [])):
                a = a.decode() if isinstance(a, bytes) else str(a)
                u = node[a].attrs.get("units", "")
                axs.append((a, np.asarray(node[a][()]), u.decode() if isinstance(u, bytes) else str(u)))
            axes[g] = axs
        extra = {}
        if "encoder_offset" in results:
            extra["encoder_offset"] = np.asarray(results["encoder_offset"][()]).tolist()
    return out, axes, extra


def run(proc, outfn, method, params, clean=True):
    from spectrocrunch.process.utils import create_task
    from spectrocrunch.io import nxfs

    if clean and os.path.exists(outfn):
        os.remove(outfn)
    root = nxfs.Path("/", h5file=outfn).nxroot()
    entry = root.nxentry(name="entry")
    try:
        task = create_task(dependencies=proc, method=method, outputparent=entry, **params)
        task.run()
        if not task.done:
            return RuntimeError("not done")
        out = task.output
        path = out.path
    except Exception as e:
        return e
    return content(outfn, path) + (out,)


def same(a, b, tol=0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if tol:
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))
    return bool(np.array_equal(a, b))


class Job:
    """One task on one input"""

    def __init__(self, ctx, kind, shape, groups, values, **kw):
        self.ctx = ctx
        self.kind = kind
        self.groups, self.shape = groups, shape
        self.values = values
        self.fn = os.path.join(ctx.scratch, "in.h5")
        self.proc = make_input(self.fn, groups, shape, values, **kw)
        self.before = tasklib.under(tasklib.dumpfile(self.fn), "entry/fromraw.1")
        self.axes = kw.get("axes") or [axis_values(i, n) for i, n in enumerate(shape)]
        self.names = AXNAMES[-len(shape) :]

    def go(self, method, params, expvalues, expaxes, case, tol=0, refused=None, proc=None, clean=True):
        """expvalues/expaxes None: anything consistent; refused: the task must fail (True),
        must succeed (False) or both are fine (None)"""
        ctx = self.ctx
        ctx.tick()
        ctx.state((self.kind, repr(sorted(case.items(), key=str))))
        ctx.trans(1)
        ctx.trace(1)
        ctx.current = case
        what = "%s(%s) on %s" % (method, ", ".join("%s=%r" % kv for kv in sorted(params.items())), case.get("on", self.shape))
        r = run(proc or self.proc, os.path.join(ctx.scratch, "out.h5"), method, params, clean=clean)
        after = tasklib.under(tasklib.dumpfile(self.fn), "entry/fromraw.1")
        if after != self.before:
            ctx.fail("input-modified " + method, case, "%s: input changed: %s" % (what, tasklib.diff(self.before, after)))
        if isinstance(r, Exception):
            ctx.outcome("refused")
            if refused is False:
                ctx.fail("failed %s %s" % (method, type(r).__name__), case, "%s: %s %s" % (what, type(r).__name__, r))
            return None
        ctx.outcome(method)
        got, axes, extra, out = r
        if refused:
            ctx.fail("accepted " + method, case, "%s is not refused" % what)
            return r
        for (g, s), v in got.items():
            if tuple(len(a[1]) for a in axes[g]) != v.shape:
                ctx.fail("axes-size " + method, case, "%s: signal %s/%s has shape %s, axes %s" % (what, g, s, v.shape, [(a[0], len(a[1])) for a in axes[g]]))
                return r
        if expvalues is not None:
            if set(got) != set(expvalues):
                ctx.fail("signals " + method, case, "%s: signals %s instead of %s" % (what, sorted(got), sorted(expvalues)))
                return r
            for s, v in expvalues.items():
                if not same(got[s], v, tol):
                    ctx.fail("value %s sliced=%s" % (method, params.get("sliced", False)), case, "%s: %s is %s %s instead of %s %s" % (what, s, got[s].dtype, got[s].tolist(), np.asarray(v).dtype, np.asarray(v).tolist()))
                    return r
            if not tol:
                for s, v in expvalues.items():
                    if v.dtype != got[s].dtype and method != "resample":
                        ctx.fail("dtype %s" % method, case, "%s: %s has type %s instead of %s" % (what, s, got[s].dtype, v.dtype))
        if expaxes is not None:
            for g in {g for g, s in got}:
                names = [a[0] for a in axes[g]]
                if names != self.names or any(not same(a[1], e, 1e-9) for a, e in zip(axes[g], expaxes)):
                    ctx.fail("axes " + method, case, "%s: axes of %s are %s instead of %s" % (what, g, [(a[0], a[1].tolist()) for a in axes[g]], [np.asarray(e).tolist() for e in expaxes]))
                    break
                if any(a[2] not in ("um", "µm", "micrometer") for a in axes[g]):
                    ctx.fail("axes-units " + method, case, "%s: units %s" % (what, [a[2] for a in axes[g]]))
                    break
        return r


def modes(nd):
    yield False, 0
    for i in range(nd):
        yield True, i


# ---------------------------------------------------------------- crop by region
def crop_job(ctx, dim):
    groups, shape = GROUPS[dim], SHAPES[dim]
    return Job(ctx, "crop", shape, groups, default_values(groups, shape))


def regions(n):
    return [(a, b) for a in range(n) for b in range(a + 1, n + 1)]


def special(n):
    """region as given, region meant"""
    return [((-n + 1, n), (1, n)), ((0, -1), (0, n - 1)), ((None, n - 1), (0, n - 1)), ((1, None), (1, n)), ((0, n + 3), (0, n))]


def run_croproi(shard, ctx):
    dim, stackdim = shard["dim"], shard["stackdim"]
    job = crop_job(ctx, dim)
    shape = job.shape
    others = [i for i in range(len(shape)) if i != stackdim]
    plan = []
    if others:
        i0 = others[0]
        rest = others[1:]
        for r0 in regions(shape[i0]):
            for rr in itertools.product(*[regions(shape[i]) if ctx.thorough else [(0, shape[i]), (1, 2), (1, shape[i])] for i in rest]):
                plan.append(((r0,) + rr, (r0,) + rr))
        for k, i in enumerate(rest, 1):
            for r in regions(shape[i]):
                roi = [(0, shape[j]) for j in others]
                roi[k] = r
                plan.append((tuple(roi), tuple(roi)))
        for k, i in enumerate(others):
            for given, meant in special(shape[i]):
                if meant[1] <= meant[0]:
                    continue
                g, m = [(0, shape[j]) for j in others], [(0, shape[j]) for j in others]
                g[k], m[k] = given, meant
                plan.append((tuple(g), tuple(m)))
    else:
        plan.append(((), ()))
    n = 0
    for given, meant in dict.fromkeys(plan):
        n += 1
        if shard["part"] != n % 2:
            continue
        for sliced in (False, True):
            if not ctx.thorough and sliced != bool(n // 2 % 2):
                continue
            index = [slice(None)] * len(shape)
            for i, (a, b) in zip(others, meant):
                index[i] = slice(a, b)
            exp = {s: v[tuple(index)] for s, v in job.values.items()}
            axes = [a[index[i]] for i, a in enumerate(job.axes)]
            params = {"roi": [list(r) for r in given], "reference": "A", "sliced": sliced, "stackdim": stackdim}
            ordinary = given == meant
            job.go("crop", params, exp, axes, {"shard": shard, "roi": params["roi"], "sliced": sliced}, refused=False if ordinary else None)


# ---------------------------------------------------------------- crop invalid borders
def crop_region(ref, stackdim, invalid, nanfull):
    """Region per dimension of the reference signal or None"""
    valid = ~invalid(ref).any(axis=stackdim)
    roi = []
    others = [i for i in range(ref.ndim) if i != stackdim]
    for k in range(valid.ndim):
        count = valid.sum(axis=tuple(j for j in range(valid.ndim) if j != k))
        keep = count == count.max() if nanfull and count.max() else count > 0
        keep = [i for i, x in enumerate(keep) if x]
        if not keep:
            return None
        roi.append((keep[0], keep[-1] + 1))
    index = [slice(None)] * ref.ndim
    for i, r in zip(others, roi):
        index[i] = slice(*r)
    return index


def run_cropnan(shard, ctx):
    shape, stackdim = tuple(shard["shape"]), shard["stackdim"]
    n = int(np.prod(shape))
    lo, hi = shard["range"]
    groups = (("detector00", (("BA", "f8"),)), ("counters", (("C", "i4"),)))
    for m in range(lo, hi):
        mask = np.array([(m >> i) & 1 for i in range(n)], dtype=bool).reshape(shape)
        for k, nanval in enumerate(shard["nanvals"]):
            if not ctx.thorough and len(shard["nanvals"]) > 1 and m // 4 % 2 != k:
                continue
            nv = {"nan": np.nan, "float": float("nan"), "-1": -1}[nanval]
            values = default_values(groups, shape)
            ref = values[("detector00", "BA")]
            ref[mask] = nv
            job = Job(ctx, "cropnan", shape, groups, values)
            for nanfull in (True, False):
                if not ctx.thorough and nanfull == bool(m % 2):
                    continue
                sliced = bool((m // 2 + nanfull) % 2)
                inv = (lambda x: np.isnan(x)) if nv != nv else (lambda x: x == nv)
                index = crop_region(ref, stackdim, inv, nanfull)
                if index is None:
                    index = [slice(None)] * len(shape)
                exp = {s: v[tuple(index)] for s, v in values.items()}
                axes = [a[index[i]] for i, a in enumerate(job.axes)]
                params = {"nanval": nv, "nanfull": nanfull, "reference": "BA", "sliced": sliced, "stackdim": stackdim}
                case = {"shard": dict(shard, range=[m, m + 1], nanvals=[nanval]), "nanfull": nanfull, "sliced": sliced, "on": "mask %s" % mask.astype(int).tolist()}
                job.go("crop", params, exp, axes, case, refused=False)


# ---------------------------------------------------------------- reference
def run_reference(shard, ctx):
    shape = (2, 3, 4)
    names = (("detector00", ("A", "BA")), ("detector01", ("A", "CBA")), ("counters", ("Q",)))
    groups = tuple((g, tuple((s, "f4") for s in ss)) for g, ss in names)
    values = default_values(groups, shape)
    # every signal has its own border
    marks = {}
    for k, key in enumerate(sorted(values)):
        a, b = regions(4)[k % 10]
        v = values[key]
        v[:, :, :a] = np.nan
        v[:, :, b:] = np.nan
        marks[key] = (a, b)
    job = Job(ctx, "reference", shape, groups, values)
    refs = {}
    for g, ss in names:
        for s in ss:
            refs.setdefault(s, []).append((g, s))
            refs["%s/%s" % (g, s)] = [(g, s)]
            refs["/%s/%s" % (g, s)] = [(g, s)]
    k = 0
    for ref in list(refs) + ["nothing", "ZZ", "unters/Q", "detector02/A"]:
        cands = refs.get(ref, [])
        k += 1
        for sliced in (False, True):
            if not ctx.thorough and sliced == bool(k % 2):
                continue
            case = {"shard": shard, "reference": ref, "sliced": sliced}
            params = {"nanval": np.nan, "reference": ref, "sliced": sliced}
            if not cands:
                job.go("crop", params, None, None, case, refused=True)
                continue
            exps = []
            for c in cands:
                a, b = marks[c]
                exps.append(b - a)
            r = job.go("crop", params, None, None, case, refused=False)
            if r is None:
                continue
            got = r[0]
            ok = False
            for c in cands:
                a, b = marks[c]
                ok |= all(same(got[s], v[:, :, a:b]) for s, v in values.items())
            if not ok:
                ctx.fail("reference", case, "crop with reference %r keeps columns of shape %s, the border of %s is %s" % (ref, [v.shape for v in got.values()][0], cands, [marks[c] for c in cands]))


# ---------------------------------------------------------------- replace, minlog, copy, skip
def pointwise(dim, dtype):
    shape = SHAPES[dim]
    n = int(np.prod(shape))
    base = np.array([0.0, -1, 2, np.nan, np.inf, -np.inf, 3, 1e30, 0.5, 2, -1, 7])
    if dtype == "i4":
        base = np.array([0, -1, 2, 5, 3, 2, -1, 7, 100])
    return np.resize(base, n).reshape(shape).astype(dtype)


def run_replace(shard, ctx):
    dim = shard["dim"]
    groups, shape = GROUPS[dim], SHAPES[dim]
    values = {(g, s): np.roll(pointwise(dim, t), k) for g, ss in groups for k, (s, t) in enumerate(ss)}
    job = Job(ctx, "replace", shape, groups, values)
    olds = [-1, 2, 2.0, 0, np.nan, float("nan"), np.inf, 99]
    news = [0, -2, np.nan, 1.5, np.inf]
    for i, (old, new) in enumerate(itertools.product(olds, news)):
        for j, (sliced, stackdim) in enumerate(modes(len(shape))):
            if i % 4 != shard["part"]:
                continue
            if not ctx.thorough and (i // 4 + j) % (5 if len(shape) == 3 else 3):
                continue
            exp = {}
            skip = []
            for s, v in values.items():
                m = np.isnan(v) if old != old else v == old
                e = v.copy()
                if v.dtype.kind == "i":
                    if m.any() and new != int(new if np.isfinite(new) else 0):
                        # an integer signal cannot hold the new value
                        skip = ["C"]
                        continue
                    e[m] = int(new) if m.any() else 0
                else:
                    e[m] = new
                exp[s] = e
            params = {"old": old, "new": new, "sliced": sliced, "stackdim": stackdim, "skip": [{"pattern": x} for x in skip]}
            job.go("replace", params, exp, job.axes, {"shard": shard, "old": repr(old), "new": repr(new), "sliced": sliced, "stackdim": stackdim}, refused=False)


def run_minlog(shard, ctx):
    dim = shard["dim"]
    groups, shape = GROUPS[dim], SHAPES[dim]
    values = {(g, s): np.roll(pointwise(dim, t), k) for g, ss in groups for k, (s, t) in enumerate(ss)}
    job = Job(ctx, "minlog", shape, groups, values)
    first = True
    for sliced, stackdim in modes(len(shape)):
        exp = {s: -np.log(v.astype(float)) for s, v in values.items()}
        job.go("minlog", {"sliced": sliced, "stackdim": stackdim}, exp, job.axes, {"shard": shard, "sliced": sliced, "stackdim": stackdim}, tol=1e-6, refused=False)
        for skip in ([{"method": "regex", "pattern": "A"}], [{"method": "regexparent", "pattern": "counters"}], [{"pattern": ".*A$"}], [{"method": "regex", "pattern": "zzz"}], [{"pattern": "A"}, {"pattern": "C"}]):
            import re

            e2 = {}
            for (g, s), v in exp.items():
                if not any(re.match(r["pattern"], g if r.get("method") == "regexparent" else s) for r in skip):
                    e2[(g, s)] = v
            if not e2 or not (ctx.thorough or first or len(skip) > 1):
                continue
            job.go("minlog", {"sliced": sliced, "stackdim": stackdim, "skip": skip}, e2, job.axes, {"shard": shard, "sliced": sliced, "stackdim": stackdim, "skip": skip}, tol=1e-6, refused=False)
        first = False
        copy = [{"pattern": "."}]
        job.go("expression", {"expression": "{}", "copy": copy, "sliced": sliced, "stackdim": stackdim}, values, job.axes, {"shard": shard, "copy": True, "sliced": sliced, "stackdim": stackdim}, refused=False)


# ---------------------------------------------------------------- chains
STEPS = {
    "crop": ("crop", lambda sd, sl: {"roi": [[1, 3], [0, 2]], "reference": "A", "stackdim": sd, "sliced": sl}),
    "replace": ("replace", lambda sd, sl: {"old": 2, "new": 50, "stackdim": sd, "sliced": sl}),
    "minlog": ("minlog", lambda sd, sl: {"stackdim": sd, "sliced": sl}),
    "expr": ("expression", lambda sd, sl: {"expression": "{}*2-{C}", "copy": [{"pattern": "C"}], "stackdim": sd, "sliced": sl}),
    "skip": ("replace", lambda sd, sl: {"old": 3, "new": 4, "skip": [{"pattern": "B"}], "stackdim": sd, "sliced": sl}),
}


def apply_step(name, sd, values, axes):
    if name == "crop":
        nd = len(axes)
        others = [i for i in range(nd) if i != sd]
        index = [slice(None)] * nd
        for i, r in zip(others, ((1, 3), (0, 2))):
            if r[1] > len(axes[i]):
                return None, None
            index[i] = slice(*r)
        return {s: v[tuple(index)] for s, v in values.items()}, [a[index[i]] for i, a in enumerate(axes)]
    if name == "replace":
        return {s: np.where(v == 2, 50, v) for s, v in values.items()}, axes
    if name == "skip":
        return {(g, s): np.where(v == 3, 4, v) for (g, s), v in values.items() if not s.startswith("B")}, axes
    if name == "minlog":
        return {s: -np.log(v) for s, v in values.items()}, axes
    c = values[("counters", "C")]
    return {(g, s): (v if s == "C" else v * 2 - c) for (g, s), v in values.items()}, axes


def run_chain(shard, ctx):
    first = shard["first"]
    groups = GROUPS["3d"]
    shape = (3, 4, 3)
    values = default_values(groups, shape)
    values = {s: (v if v.dtype.kind == "i" else np.round(v).astype(v.dtype)) for s, v in values.items()}
    axes = [axis_values(i, n) for i, n in enumerate(shape)]
    for instack in (None, 0, 2) if ctx.thorough else (None, 2):
        job = Job(ctx, "chain", shape, groups, values, stackdim=instack, axes=axes)
        for rest in itertools.product(STEPS, repeat=2 if ctx.thorough else 1):
            for variant in range(2):
                if not ctx.thorough and variant == (instack is None):
                    continue
                v, a, proc = {s: x.astype(float) for s, x in values.items()}, axes, None
                hist = []
                for k, name in enumerate((first,) + rest):
                    sd = (0, 2, 1)[(variant + k) % 3]
                    sl = bool((variant + k) % 2)
                    method, par = STEPS[name]
                    v, a = apply_step(name, sd, v, a)
                    if v is None:
                        break
                    hist.append((name, sd, sl))
                    case = {"shard": shard, "instack": instack, "history": hist[:], "on": "history %s" % hist}
                    r = job.go(method, par(sd, sl), v, a, case, tol=1e-5, refused=False, proc=proc, clean=proc is None)
                    if r is None:
                        break
                    proc = r[3]


# ---------------------------------------------------------------- resample
DISTORT = {
    "none": lambda n, m: np.zeros((n, m)),
    "shift": lambda n, m: np.full((n, m), 0.75),
    "skew": lambda n, m: np.linspace(0, 2.0, m)[np.newaxis, :] * np.ones((n, 1)),
    "back": lambda n, m: -np.linspace(0, 1.5, m)[np.newaxis, :] * np.ones((n, 1)),
    "jitter": lambda n, m: (((np.arange(n)[:, None] * 5 + np.arange(m)[None, :] * 3) % 7) - 3) / 10.0,
    # nothing in common
    "huge": lambda n, m: np.linspace(0, 12.0, m)[np.newaxis, :] * np.ones((n, 1)),
    "stretch": lambda n, m: np.linspace(-0.4, 0.4, n)[:, None] * np.ones((1, m)),
}


def run_resample(shard, ctx):
    """Signals: encoder positions along one or two of the axes, a linear function of them and the
    position along the remaining axes (exact under linear interpolation)"""
    nstack, n1, n2 = 2, 5, 6
    which = shard["axes"]
    dis = DISTORT[shard["distort"]]
    for dec, res, crop, offset in itertools.product(*shard["grid"]):
        axes = [np.arange(nstack) * 1.0, axis_values(1, n1, "y" in dec), axis_values(2, n2, "x" in dec)]
        steps = [1.0, axes[1][1] - axes[1][0], axes[2][1] - axes[2][0]]
        shape = (nstack, n1, n2)
        index = np.indices(shape)
        dy = np.stack([dis(n1, n2) * (1 + 0.1 * k) for k in range(nstack)])
        dx = np.stack([dis(n2, n1).T * (1 - 0.1 * k) for k in range(nstack)])
        res = float(res)
        trueoff = {"y": 3.0, "x": -2.0}
        ypos = axes[1][0] + steps[1] * (index[1] + dy)
        xpos = axes[2][0] + steps[2] * (index[2] + dx)
        ency = ypos * res + trueoff["y"]
        encx = xpos * (res + 1) + trueoff["x"]
        values = {}
        lin = {}
        groups = (("detector00", (("A", "f4"), ("D", "f8"))), ("counters", (("samy", "f8"), ("samx", "f8"))))
        z = axes[0][index[0]]
        ynom = axes[1][index[1]]
        xnom = axes[2][index[2]]
        # linear in what is interpolated, arbitrary along the others
        ya = ency if "y" in which else ynom**2
        xa = encx if "x" in which else xnom**2
        values[("detector00", "A")] = (2.0 * ya - 3.0 * xa + 5 * z**2).astype(np.float32)
        values[("detector00", "D")] = (ya if "y" in which else 0) + (xa if "x" in which else 0) + 1.0
        values[("counters", "samy")] = ency
        values[("counters", "samx")] = encx
        job = Job(ctx, "resample", shape, groups, values, axes=axes)
        encoders = {}
        if "y" in which:
            encoders["y"] = {"counter": "samy", "resolution": res}
            if offset:
                encoders["y"]["offset"] = trueoff["y"]
        if "x" in which:
            encoders["x"] = {"counter": "samx", "resolution": res + 1}
            if offset:
                encoders["x"]["offset"] = trueoff["x"]
        if shard.get("missing"):
            encoders["x" if which == "y" else "y"] = {"counter": "nosuch", "resolution": 1}
        case = {"shard": dict(shard, grid=[[dec], [res], [crop], [offset]]), "on": "axes %s distortion %s descending %r resolution %s" % (which, shard["distort"], dec, res)}
        params = {"encoders": encoders, "crop": crop}
        r = job.go("resample", params, None, None, case, refused=False)
        if r is None:
            continue
        got, gaxes, extra, out = r
        if shard["distort"] == "huge" and crop:
            if not all(same(a[1], e, 1e-9) for a, e in zip(gaxes["detector00"], axes)) or not all(same(got[s], v, 1e-6) for s, v in values.items()):
                ctx.fail("skipped resample", case, "resample: nothing in common, but the signals or axes changed")
            continue
        if set(got) != set(values):
            ctx.fail("signals resample", case, "resample: signals %s" % sorted(got))
            continue
        offs = extra.get("encoder_offset")
        axs = gaxes["detector00"]
        if [a[0] for a in axs] != AXNAMES or offs is None or len(offs) != 3:
            ctx.fail("axes resample", case, "resample: axes %s, offsets %s" % ([a[0] for a in axs], offs))
            continue
        newax = [a[1] for a in axs]
        bad = False
        for i, nm in enumerate(AXNAMES):
            if nm not in which:
                if not same(newax[i], axes[i], 1e-9):
                    ctx.fail("axes-changed resample", case, "resample: axis %s is %s, was %s" % (nm, newax[i].tolist(), axes[i].tolist()))
                    bad = True
                continue
            lat = (newax[i] - axes[i][0]) / steps[i]
            if not np.allclose(lat, np.round(lat), atol=1e-6) or not np.allclose(np.diff(newax[i]), steps[i], atol=1e-6):
                ctx.fail("axes-lattice resample", case, "resample: axis %s %s is not on the positions of %s" % (nm, newax[i].tolist(), axes[i].tolist()))
                bad = True
            if offset and abs(offs[i] - trueoff[nm]) > 1e-6:
                ctx.fail("offset resample", case, "resample: offset %s instead of %s" % (offs[i], trueoff[nm]))
                bad = True
        if bad:
            continue
        nz, ny, nx = [len(a) for a in newax]
        yn, xn = newax[1][None, :, None], newax[2][None, None, :]
        zn = newax[0][:, None, None]
        # encoder positions belonging to the new positions
        ye = yn * res + offs[1] if "y" in which else yn**2
        xe = xn * (res + 1) + offs[2] if "x" in which else xn**2
        full = np.ones((nz, ny, nx))
        exp = {
            ("detector00", "A"): (2.0 * ye - 3.0 * xe + 5 * zn**2) * full,
            ("detector00", "D"): ((ye if "y" in which else 0) + (xe if "x" in which else 0) + 1.0) * full,
        }
        if "y" in which:
            exp[("counters", "samy")] = ye * full
        if "x" in which:
            exp[("counters", "samx")] = xe * full
        nanref = None
        for s, e in exp.items():
            g = got[s]
            ok = np.isnan(g) | (np.abs(g - e) <= (1e-4 if s[1] == "A" else 1e-8) * (1 + np.abs(e)))
            if not ok.all():
                ctx.fail("value resample", case, "resample: %s differs from the linear function: %s instead of %s" % (s, g[~ok][:4].tolist(), e[~ok][:4].tolist()))
                break
            if nanref is None:
                nanref = np.isnan(g)
            elif (nanref != np.isnan(g)).any():
                ctx.fail("nan resample", case, "resample: signals have different invalid points")
                break
        else:
            # inside the measured positions there is a value, outside there is none
            inside = np.zeros((nz, ny, nx), dtype=bool)
            outside = np.zeros((nz, ny, nx), dtype=bool)
            for k in range(nz):
                if which == "y":
                    for j in range(nx):
                        e = ency[k, :, j]
                        p = ye[0, :, 0]
                        inside[k, :, j] = (p >= e.min() + 1e-6) & (p <= e.max() - 1e-6)
                        outside[k, :, j] = (p < e.min() - 1e-6) | (p > e.max() + 1e-6)
                elif which == "x":
                    for j in range(ny):
                        e = encx[k, j, :]
                        p = xe[0, 0, :]
                        inside[k, j, :] = (p >= e.min() + 1e-6) & (p <= e.max() - 1e-6)
                        outside[k, j, :] = (p < e.min() - 1e-6) | (p > e.max() + 1e-6)
                else:
                    pts = np.stack([ency[k].ravel(), encx[k].ravel()], axis=-1)
                    ins, outs = hull(pts, ye[0, :, 0], xe[0, 0, :])
                    inside[k], outside[k] = ins, outs
            if (nanref & inside).any():
                ctx.fail("inside-nan resample", case, "resample: no value at %s, which is within the encoder positions" % np.argwhere(nanref & inside)[:4].tolist())
            elif (~nanref & outside).any():
                ctx.fail("outside-value resample", case, "resample: value at %s, which is outside of the encoder positions" % np.argwhere(~nanref & outside)[:4].tolist())
            # the new positions cover what was measured
            for i, nm in enumerate(AXNAMES):
                if nm in which:
                    e = {"y": ency, "x": encx}[nm]
                    p = (ye[0, :, 0] if nm == "y" else xe[0, 0, :])
                    if not crop:
                        first, last = [0, -1] if True else None
                        lo = np.take(e, [0], axis=i), np.take(e, [-1], axis=i)
                        if p.min() > min(x.min() for x in lo) + 1e-6 or p.max() < max(x.max() for x in lo) - 1e-6:
                            ctx.fail("cover resample", case, "resample: encoder positions %s..%s do not cover the measured %s..%s" % (p.min(), p.max(), e.min(), e.max()))


def hull(pts, ys, xs):
    """Points of a grid strictly inside / outside of the convex hull of points"""
    from scipy.spatial import ConvexHull

    eq = ConvexHull(pts).equations
    yy, xx = np.meshgrid(ys, xs, indexing="ij")
    d = eq[:, 0, None, None] * yy + eq[:, 1, None, None] * xx + eq[:, 2, None, None]
    m = d.max(axis=0)
    scale = np.ptp(pts)
    return m < -1e-6 * scale, m > 1e-6 * scale


# ---------------------------------------------------------------- shards
def shards(tier):
    out = []
    for dim in SHAPES:
        for sd in range(len(SHAPES[dim])):
            for part in (0, 1):
                out.append({"kind": "croproi", "dim": dim, "stackdim": sd, "part": part})
    masks = [((1, 2, 3), 0, ["nan"]), ((2, 3), 1, ["-1", "float"]), ((2, 2, 1), 2, ["-1"]), ((2, 1, 2), 1, ["nan"])]
    if tier != "quick":
        masks += [((1, 3, 4), 0, ["nan"]), ((3, 3, 1), 2, ["-1"]), ((2, 2, 2), 0, ["nan"]), ((2, 2, 2), 1, ["nan", "-1"])]
    for shape, sd, nv in masks:
        n = 1 << int(np.prod(shape))
        step = 8
        for a in range(0, n, step):
            out.append({"kind": "cropnan", "shape": list(shape), "stackdim": sd, "nanvals": nv, "range": [a, min(n, a + step)]})
    out.append({"kind": "reference"})
    for dim in SHAPES:
        for part in range(4):
            out.append({"kind": "replace", "dim": dim, "part": part})
        out.append({"kind": "minlog", "dim": dim})
    for first in STEPS:
        out.append({"kind": "chain", "first": first})
    for dist in DISTORT:
        for axes in ("y", "x", "yx"):
            if tier == "quick":
                k = len(out)
                grid = [[axes[0] if k % 2 else ""], [2], [False, True], [False, True]]
            else:
                grid = [["", "y", "x", "yx"], [2, 0.5, -3], [False, True], [False, True]]
            out.append({"kind": "resample", "axes": axes, "distort": dist, "grid": grid})
    out.append({"kind": "resample", "axes": "y", "distort": "jitter", "grid": [["", "x"], [-2, 0.5], [False], [False, True]], "missing": True})
    return out


RUN = {
    "croproi": run_croproi,
    "cropnan": run_cropnan,
    "reference": run_reference,
    "replace": run_replace,
    "minlog": run_minlog,
    "chain": run_chain,
    "resample": run_resample,
}


def shard_priority(s):
    return 0 if s["kind"] == "chain" or s.get("dim") == "3d" else 1


def run_shard(shard, ctx):
    RUN[shard["kind"]](shard, ctx)


def replay(case, ctx):
    run_shard(case["shard"], ctx)
