"""C30: full-field images (data, flat fields, darks in EDF files) are turned into
a stack which equals the definition of the normalization, whatever the files,
their order, headers and the parameters.
"""
import os
import itertools
import warnings

import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive exploration of the real code against a reference model"
BOUNDS = {
    "quick": "images of 4x5 pixels; 1 to 3 energies x every order of the files x 1 or 2 images per energy x 0 to 3 flat fields per energy; darks of none, one or all exposure times; exposure times, numbers of frames, camera regions present or missing in the header, equal numbers written differently; every combination of keeping flat fields, normalizing and splitting them; 36 regions of interest x 6 rebinnings; 3 stack dimensions; stack values given or in the header; every order in which the file system lists up to 3 files; the whole pipeline normalizing when loading or afterwards",
    "thorough": "the same with the combinations of headers and parameters multiplied, 81 regions of interest",
}
ASSUMPTIONS = [
    "an image without flat fields cannot be normalized: the task fails and leaves no result",
    "raw images are larger than their dark",
]

SHAPE = (4, 5)
ENERGY = [7.0, 7.25, 9.5]


def worker_init():
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)


def pixels(seed):
    y, x = np.indices(SHAPE)
    return ((y * 7 + x * 3 + seed * 11) % 23).astype(float)


class Files:
    """Writes the files of one case and remembers what is in them."""

    def __init__(self, root, case):
        import shutil
        from spectrocrunch.io.edf import saveedf

        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        self.save = saveedf
        self.root = root
        n = case.get("n", 2)
        order = case.get("order", list(range(n)))
        f = case["files"] if "files" in case else {}
        self.ndata = f.get("ndata", [1] * n)
        self.nflat = f.get("nflat", [2] * n)
        self.tdata, self.tflat = f.get("times", ("0.5", "0.25"))
        self.darks = f.get("darks", ["0.5", "0.25"])
        self.frames = f.get("frames", True)
        self.label = f.get("energies", [repr(e) for e in ENERGY])
        self.camera = f.get("camera")
        self.data = {}
        self.flat = {}
        self.dark = {}
        for k, t in enumerate(self.darks):
            # the same exposure time may be in several files
            img = pixels(40 + k) + 20
            nf = 3 + k
            self.write("ff_dark_%d.edf" % k, img * nf, None, t, nf)
            d = self.dark.setdefault(float(t), [0, 0])
            nf = nf if self.frames else 1
            img = img * (3 + k)
            d[0] = d[0] + img
            d[1] += nf
        i = 0
        for e in order:
            for j in range(self.ndata[e]):
                nf = 1 + (e + j) % 3
                img = (pixels(e * 5 + j) + 60 + 20 * e) * nf
                label = self.label[e]
                if isinstance(label, (list, tuple)):
                    label = label[j % len(label)]
                self.write("ff_data_%04d.edf" % i, img, label, self.tdata, nf)
                self.data.setdefault(e, []).append((img, self.tdata, nf if self.frames else 1))
                i += 1
        self.dataorder = [e for e in order for j in range(self.ndata[e])]
        i = 0
        self.flatorder = []
        for j in range(max(self.nflat)):
            for e in order:
                if j < self.nflat[e]:
                    nf = 1 + (e + 2 * j) % 4
                    img = (pixels(e * 3 + j + 17) + 100 + 30 * e) * nf
                    label = self.label[e]
                    if isinstance(label, (list, tuple)):
                        label = label[-1]
                    self.write("ff_ref_%04d.edf" % i, img, label, self.tflat, nf)
                    self.flat.setdefault(e, []).append((img, self.tflat, nf if self.frames else 1))
                    self.flatorder.append(e)
                    i += 1
        if self.camera == "different":
            # an image of another region of the camera
            self.write("ff_data_9999.edf", pixels(3), self.label[0], self.tdata, 1, camera=(9, 9))
            self.write("ff_ref_9999.edf", pixels(3), self.label[0], self.tflat, 1, camera=(9, 9))
        # images without energy are not part of the stack
        if f.get("stray"):
            self.write("ff_data_0000a.edf", pixels(5), None, self.tdata, 1)

    def write(self, name, img, energy, time, nframes, camera=None):
        h = {}
        if energy is not None:
            h["energy"] = energy
        if time is not None:
            h["exposure_time"] = time
        if self.frames:
            h["nb_frames"] = nframes
        if self.camera:
            x, y = camera or (100, 30)
            h["roi"] = {"different": "<%d,%d>-<%dx%d>", "a": "<%d,%d>-<%dx%d>", "b": "%d %d %d %d"}[self.camera] % (x, y, SHAPE[1], SHAPE[0])
        self.save(os.path.join(self.root, name), img, h)


PAR = {
    "frametimelabel": "exposure_time",
    "frametimedefault": 0.5,
    "roilabel": "roi",
    "nbframeslabel": "nb_frames",
    "stacklabel": "energy",
    "dtype": "np.float64",
    "darkcurrentzero": 9.0,
    "darkcurrentgain": 4.0,
    "stackdim": 0,
    "flatbeforeafter": True,
    "normalize": True,
    "keepflat": False,
    "roi": None,
    "rebin": (1, 1),
}


def model(files, par):
    """signals (lists of images), axes; None for signals which cannot be calculated"""
    roi = par["roi"] or ((None, None), (None, None))
    roi = tuple(slice(*r) for r in roi)
    ry, rx = par["rebin"]

    def raw(img):
        img = img[roi]
        ny, nx = img.shape[0] // ry, img.shape[1] // rx
        ret = np.zeros((ny, nx))
        for i in range(ny):
            for j in range(nx):
                ret[i, j] = sum(img[i * ry + a, j * rx + b] for a in range(ry) for b in range(rx))
        return ret

    def rate(imgs):
        num = 0
        den = 0
        for img, t, nf in imgs:
            t = par["frametimedefault"] if t is None else float(t)
            if t in files.dark:
                d, dn = files.dark[t]
                dark = raw(np.asarray(d)) / dn
            else:
                dark = raw(np.full(SHAPE, par["darkcurrentzero"] + par["darkcurrentgain"] * t))
            num = num + raw(img) - nf * dark
            den = den + nf * t
        return num / den

    sample, flat1, flat2 = [], [], []
    es = sorted(files.data)
    for e in es:
        s = rate(files.data[e])
        flats = files.flat.get(e, [])
        if par["normalize"] or par["keepflat"]:
            if not flats:
                return None
            k = len(flats) // 2
            if not par["flatbeforeafter"]:
                f1 = f2 = rate(flats)
            elif k == 0:
                f1 = f2 = rate(flats)
            else:
                f1, f2 = rate(flats[:k]), rate(flats[k:])
            flat1.append(f1)
            flat2.append(f2)
            if par["normalize"]:
                s = -np.log(s / ((f1 + f2) / 2))
        sample.append(s)
    ret = {"sample": sample}
    if par["keepflat"]:
        ret["flat1"] = flat1
        if par["flatbeforeafter"]:
            ret["flat2"] = flat2
    y = np.arange(SHAPE[0])[roi[0]]
    x = np.arange(SHAPE[1])[roi[1]]
    if files.camera:
        y = y + 30
        x = x + 100
    y, x = [np.array([a[i * r : i * r + r].mean() for i in range(len(a) // r)]) for a, r in ((y, ry), (x, rx))]
    return ret, y, x, [ENERGY[e] for e in es]


def compare(nxdata, want, par, rtol, ctx, case):
    sig, y, x, e = want
    sd = par["stackdim"]
    axes = [("row", y), ("col", x)]
    axes.insert(sd, ("energy", np.array(e)))
    msg = None
    with nxdata.open(mode="r") as group:
        got = {k: group[k][()] for k in group if k in ("sample", "flat1", "flat2")}
        if set(got) != set(sig):
            return "signals %s instead of %s" % (sorted(got), sorted(sig))
        names = [a.decode() if isinstance(a, bytes) else a for a in group.attrs["axes"]]
        if names != [a for a, _ in axes]:
            return "axes %s" % names
        for a, v in axes:
            w = group[a][()]
            if w.shape != v.shape or not np.allclose(w, v, rtol=1e-6):
                return "axis %s %s instead of %s" % (a, w.tolist(), v.tolist())
    for k, imgs in sig.items():
        v = np.stack(imgs, axis=sd)
        w = got[k]
        if w.shape != v.shape:
            return "%s has shape %s instead of %s" % (k, w.shape, v.shape)
        if not np.allclose(w, v, rtol=rtol, atol=rtol, equal_nan=True):
            i = tuple(np.argwhere(~np.isclose(w, v, rtol=rtol, atol=rtol, equal_nan=True))[0])
            return "%s at %s is %r instead of %r" % (k, i, w[i], v[i])


class listing:
    """The file system lists the files of a directory in another order."""

    def __init__(self, order):
        self.order = order

    def __enter__(self):
        import glob

        self.glob = glob.glob
        if self.order is not None:

            def f(*args, **kw):
                ret = sorted(self.glob(*args, **kw))
                p = list(itertools.permutations(range(len(ret))))
                return [ret[i] for i in p[self.order % len(p)]]

            glob.glob = f

    def __exit__(self, *args):
        import glob

        glob.glob = self.glob


def do(case, ctx):
    from spectrocrunch.io import nxfs
    from spectrocrunch.process.utils import create_task

    ctx.current = case
    ctx.tick(1, "full-field tasks")
    root = os.path.join(ctx.scratch, "ff")
    files = Files(root, case)
    par = dict(PAR)
    par.update(case.get("par", {}))
    for k in ("roi", "rebin"):
        if par[k] is not None:
            par[k] = tuple(tuple(r) if isinstance(r, list) else r for r in par[k])
    want = model(files, par)
    given = case.get("given")
    if given:
        if "data" in given:
            par["datastackvalues"] = [ENERGY[e] for e in files.dataorder]
        if "flat" in given:
            par["flatstackvalues"] = [ENERGY[e] for e in files.flatorder]
    for k in ("dark", "data", "ref"):
        par[{"dark": "darklist", "data": "datalist", "ref": "flatlist"}[k]] = [os.path.join(root, "ff*_%s_*.edf" % k)]
    fn = os.path.join(ctx.scratch, "ff.h5")
    if os.path.exists(fn):
        os.remove(fn)
    entry = nxfs.Path("/", h5file=fn).nxroot().new_nxentry()
    name = "full-field %s" % case["what"]
    try:
        with listing(case.get("listing")):
            task = create_task(method="fullfield", outputparent=entry, name="ff", **par)
            task.run()
        done = task.done
    except Exception as e:
        ctx.fail(name + " raises", case, "raises %r" % e)
        return
    ctx.trans()
    if want is None:
        if done:
            ctx.fail(name, case, "an image without flat fields is normalized")
        elif "ff" in [p.name for p in entry] or any("ff" in p.name for p in entry):
            ctx.fail(name, case, "a failed task leaves %s" % [p.name for p in entry])
        ctx.trace()
        return
    if not done:
        ctx.fail(name + " fails", case, "the task fails")
        return
    rtol = 1e-9 if par["dtype"] == "np.float64" else 2e-5
    msg = compare(task.output.results["detector0"], want, par, rtol, ctx, case)
    if msg:
        ctx.fail(name, case, msg)
        return
    ctx.trace()
    ctx.state(repr(case))


def do_pipeline(case, ctx):
    from spectrocrunch.pipelines import id21_ffxas
    from spectrocrunch.pipelines.run import run_sequential

    ctx.current = case
    ctx.tick(1, "pipelines")
    root = os.path.join(ctx.scratch, "ff")
    files = Files(root, case)
    fn = os.path.join(ctx.scratch, "ff.h5")
    if os.path.exists(fn):
        os.remove(fn)
    p = dict(case["pipeline"])
    for k in ("roiraw", "rebin"):
        if p.get(k) is not None:
            p[k] = tuple(tuple(r) if isinstance(r, list) else r for r in p[k])
    kw = dict(p, sourcepaths=root, radix="ff", nxentry=fn + "::/ff")
    name = "pipeline"
    par = {
        "normalize": p["normalize"] ,
        "keepflat": False,
        "flatbeforeafter": p["flatbeforeafter"],
        "roi": p["roiraw"],
        "rebin": p["rebin"],
        "stackdim": p["stackdim"],
        "frametimedefault": 0.0,
        "darkcurrentzero": 90.0,
        "darkcurrentgain": 1.0,
    }
    want = model(files, par)
    try:
        tasks = id21_ffxas.tasks(**kw)
        if any(t.done for t in tasks):
            ctx.fail(name, case, "done before it was started")
            return
        ok = run_sequential(tasks)
        again = id21_ffxas.tasks(**kw)
        ok2 = all(t.done for t in again)
    except Exception as e:
        ctx.fail(name + " raises", case, "raises %r" % e)
        return
    ctx.trans()
    if not ok or not all(t.done for t in tasks):
        ctx.fail(name, case, "fails")
        return
    if not ok2:
        ctx.fail(name, case, "not done when it is prepared again")
        return
    msg = compare(tasks[-1].output.results["detector0"], want, par, 2e-5, ctx, case)
    if msg:
        ctx.fail(name, case, msg)
        return
    ctx.trace()
    ctx.state(repr(case))


TIMES = [("0.5", "0.25"), ("0.5", "0.5"), (None, "0.25"), ("0.5", None), (None, None), ("1", "0.2"), ("1e-1", "2")]
DARKS = [[], ["0.5"], ["0.25"], ["0.5", "0.25"], ["0.5", "0.5", "0.25"], ["0.5", "0.25", "0.25", "1"], ["0.1", "2"], [None], ["0.50", "2.5e-1"]]
ROI0 = [None, [0, 3], [1, None], [1, -1], [None, 10], [-3, None], [-10, 2], [2, 3], [0, -2]]
ROI1 = [None, [1, 5], [None, 4], [1, -1], [2, 10], [-4, None], [-10, 3], [4, 5], [0, -2]]
REBIN = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (2, 3)]


def flags():
    for norm, keep, ba in itertools.product((True, False), repeat=3):
        yield {"normalize": norm, "keepflat": keep, "flatbeforeafter": ba}


def cases(what, thorough):
    if what == "counts":
        for n in (1, 2, 3):
            for ndata in itertools.product((1, 2), repeat=n):
                for nflat in itertools.product((0, 1, 2, 3), repeat=n):
                    if not thorough and (n == 2 and ndata[1] == 2 or n == 3 and (nflat[2] != 2 or ndata != (1, 1, 2))):
                        continue
                    for f in flags() if n < 3 or thorough else [{"keepflat": True}]:
                        yield {"n": n, "files": {"ndata": ndata, "nflat": nflat}, "par": f}
    elif what == "order":
        for n in (2, 3):
            for order in itertools.permutations(range(n)):
                for ndata in itertools.product((1, 2), repeat=n):
                    if n == 3 and ndata[1:] != (1, 1) and not thorough:
                        continue
                    for sd in (0, 1, 2):
                        for given in ("", "data", "flat", "dataflat"):
                            yield {"n": n, "order": order, "files": {"ndata": ndata}, "par": {"stackdim": sd, "keepflat": sd == 1}, "given": given}
        for k in range(6):
            for given in ("", "data", "flat", "dataflat"):
                for order in list(itertools.permutations(range(3)))[:: 1 if thorough else 2]:
                    for nflat in ([1, 1, 1], [1, 1, 2]):
                        yield {"n": 3, "order": order, "listing": k, "given": given, "files": {"nflat": nflat}, "par": {"keepflat": True}}
                for ba in (True, False):
                    yield {"n": 1, "listing": k, "files": {"nflat": [3], "ndata": [3]}, "par": {"keepflat": True, "flatbeforeafter": ba}}
    elif what == "headers":
        for times in TIMES:
            for darks in DARKS:
                for frames in (True, False):
                    for default in (0.5, 2.0):
                        for f in flags() if thorough else [{"normalize": False, "keepflat": True, "flatbeforeafter": False}, {}]:
                            if default == 2.0 and None not in times and None not in darks:
                                continue
                            # dark images without exposure time have the default one
                            if None in darks and default != 0.5:
                                continue
                            yield {"files": {"times": times, "darks": ["0.5" if d is None else d for d in darks], "frames": frames, "ndata": [1, 2]}, "par": dict(f, frametimedefault=default)}
        for labels in (["7.0", "7.25"], ["7", "7.25"], [["7.0", "7"], "7.25"], [["7", "7.00", "70e-1"], ["7.25", "7.250"]]):
            for ndata in ([1, 1], [2, 2], [3, 2]):
                for given in ("", "data", "flat", "dataflat"):
                    for f in flags() if thorough else [{"keepflat": True}]:
                        yield {"files": {"energies": labels, "ndata": ndata}, "par": f, "given": given}
        for camera in (None, "a", "b", "different"):
            for stray in (False, True):
                for roi in (None, [[1, 3], [0, 4]], [[-2, None], [None, -1]]):
                    for rebin in REBIN[:4]:
                        for f in flags() if thorough else [{"keepflat": True}]:
                            yield {"files": {"camera": camera, "stray": stray}, "par": dict(f, roi=roi, rebin=rebin)}
    elif what == "region":
        i = 0
        for a in ROI0:
            for b in ROI1:
                if not thorough and (ROI0.index(a) + ROI1.index(b)) % 2 and a and b and (a[0] or 0) + (b[0] or 0) != 0:
                    continue
                for rebin in REBIN:
                    roi = [a or [None, None], b or [None, None]]
                    if any(len(range(k)[slice(*r)]) < m for k, r, m in zip(SHAPE, roi, rebin)):
                        continue
                    i += 1
                    for sd in (0, 1, 2) if thorough else (i % 3,):
                        for darks in ([], ["0.5", "0.25"], ["0.25"]) if thorough else ([[], ["0.5", "0.25"], ["0.25"]][i // 3 % 3],):
                            yield {"par": {"roi": roi, "rebin": rebin, "stackdim": sd, "keepflat": sd != 2, "dtype": "np.float32" if sd == 1 else "np.float64"}, "files": {"darks": darks}}
    elif what == "pipeline":
        for norm, onload, ba in itertools.product((True, False), repeat=3):
            for sd in (0, 1, 2):
                for roi in (None, [[1, 4], [0, -1]]):
                    for rebin in REBIN[:4] if thorough else [(1, 2) if roi else (1, 1)]:
                        for order in ([0, 1], [1, 0]) if thorough else ([1, 0],):
                            for nflat in ([1, 1], [2, 2], [2, 1]):
                                yield {
                                    "order": order,
                                    "files": {"nflat": nflat, "ndata": [2, 1]},
                                    "pipeline": {"normalize": norm, "normalizeonload": onload, "flatbeforeafter": ba, "stackdim": sd, "roiraw": roi, "rebin": rebin},
                                }


def shards(tier):
    out = []
    for what, n in (("counts", 8), ("order", 8), ("headers", 8), ("region", 12), ("pipeline", 12)):
        k = n * (4 if tier == "thorough" else 1)
        out += [{"what": what, "part": i, "of": k} for i in range(k)]
    return out


def run_shard(shard, ctx):
    for case in itertools.islice(cases(shard["what"], ctx.thorough), shard["part"], None, shard["of"]):
        case["what"] = shard["what"]
        replay(case, ctx)


def replay(case, ctx):
    if "pipeline" in case:
        do_pipeline(case, ctx)
    else:
        do(case, ctx)
