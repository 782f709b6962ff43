"""C21: alignment of stacks of images that are windows on one scene, for every
placement of the windows, against the placement itself.
"""
import os
import itertools
import numpy as np
import warnings

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive exploration of the real code against a reference model"
BOUNDS = {
    "quick": "stacks of 2 and 3 images of 4x5 pixels (also 1x5, 5x1, 2x2, 1x2) which are windows on one scene, for every placement of the windows (2 images) and 5 places per image (3 images); marker methods max, min, centroid; 5 reference choices (fixed first, second, last, previous raw, previous aligned) x no change of shape, padding, cropping, both; 25 regions of interest, function on raw images; missing value nan and numbers; integer images; all 25 pairs of source and destination type x 3 stack dimensions; all histories of 2 alignments, and repeated application; all histories of 2 (partly 3) alignments with and without overwriting to HDF5 files, groups and EDF directories with 8 kinds of existing content; fractional shifts of a peak on 11x12 for centroid, Gaussian and Fourier methods; alignment tasks on 2 signals with every way to choose the reference",
    "thorough": "3 images with every placement, all regions of interest, histories of 3 alignments, fractional shifts on a finer grid",
}
ASSUMPTIONS = [
    "the images are translated (other transformations need libraries which are not installed)",
    "the marker is visible in every image and region of interest",
    "pixels on the border of an image that is shifted by a fraction of a pixel may be missing",
    "centroids of a few pixels underestimate fractions of a pixel; the tolerance for fractional shifts is 0.15 pixels (0.32 for centroids)",
    "transformations to be applied before alignment are not varied",
]

MODES = [("fixed", 0), ("fixed", 1), ("fixed", -1), ("raw", None), ("aligned", None)]
NAN = np.nan


def worker_init():
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.WARNING)


def classes():
    from spectrocrunch.align import alignSimple, alignFFT

    return {
        "max": alignSimple.alignMax,
        "min": alignSimple.alignMin,
        "centroid": alignSimple.alignCentroid,
        "gaussmax": alignSimple.alignGaussMax,
        "fft": alignFFT.alignFFT,
    }


def scene(method, dy, dx, dataset):
    """Value of the scene at a distance (dy, dx) from the marker."""
    far = np.maximum(abs(dy), abs(dx)) > 2
    v = np.where(far, 1 + dataset * 40 + (dy * 7 + dx * 3) % 37, 0)
    if dataset:
        return v + 2.0 * (dx + 2 * dy)
    v = np.where((dy == 0) & (dx == 0), 1000, v)
    return -v if method == "min" else v


def blob(dy, dx):
    return 1000 * np.exp(-(dy**2 + dx**2) / (2 * 1.2**2))


def windows(method, shape, places, dataset):
    y, x = np.indices(shape).astype(float)
    if method in ("gaussmax", "fft") or (method, dataset) == ("blob", 0):
        f = lambda dy, dx: blob(dy, dx) * (1 + dataset) + (dataset * (dy + 2 * dx))
    else:
        f = lambda dy, dx: scene(method, dy, dx, dataset)
    return [np.asarray(f(y - py, x - px), dtype=float) for py, px in places]


def sample(img, y, x, tol):
    """Linear interpolation; nan outside; undecided (mask) close to the border"""
    h, w = img.shape
    yy, xx = np.meshgrid(y, x, indexing="ij")
    inside = (yy >= 0) & (yy <= h - 1) & (xx >= 0) & (xx <= w - 1)
    close = np.zeros(yy.shape, bool)
    for b, a in ((yy, h), (xx, w)):
        close |= (abs(b) < tol) | (abs(b - (a - 1)) < tol)
    yc = np.clip(yy, 0, h - 1)
    xc = np.clip(xx, 0, w - 1)
    y0 = np.minimum(np.floor(yc).astype(int), max(h - 2, 0))
    x0 = np.minimum(np.floor(xc).astype(int), max(w - 2, 0))
    y1 = np.minimum(y0 + 1, h - 1)
    x1 = np.minimum(x0 + 1, w - 1)
    fy = yc - y0
    fx = xc - x0
    v = (
        img[y0, x0] * (1 - fy) * (1 - fx)
        + img[y1, x0] * fy * (1 - fx)
        + img[y0, x1] * (1 - fy) * fx
        + img[y1, x1] * fy * fx
    )
    return np.where(inside, v, np.nan), close


class Setup:
    """Source and destination of one kind."""

    def __init__(self, cls, stacks, stackdim, kind, cval, ctx, overwrite=True):
        import h5py

        self.stackdim = stackdim
        self.kind = kind
        self.stacks = [np.stack(s, axis=stackdim) for s in stacks]
        self.n = len(stacks[0])
        src, dst = kind
        self.names = ["set%d" % i for i in range(len(stacks))]
        self.dir = ctx.scratch
        self.open = []
        source, sourcelist = None, None
        f = os.path.join(self.dir, "in.h5")
        if src.startswith("h5"):
            with h5py.File(f, "w") as h:
                for n, s in zip(self.names, self.stacks):
                    h["grp/" + n] = s
        if src == "np":
            source = list(self.stacks)
        elif src == "h5file":
            source, sourcelist = f, ["grp/" + n for n in self.names]
        elif src == "h5group":
            h = h5py.File(f, "r")
            self.open.append(h)
            source, sourcelist = h["grp"], self.names
        elif src == "h5dset":
            h = h5py.File(f, "r")
            self.open.append(h)
            source = [h["grp/" + n] for n in self.names]
        elif src == "edf":
            import fabio.edfimage

            source = os.path.join(self.dir, "edfin")
            os.makedirs(source, exist_ok=True)
            sourcelist = [["%s_%d.edf" % (n, i) for i in range(self.n)] for n in self.names]
            for fs, imgs in zip(sourcelist, stacks):
                for fn, img in zip(fs, imgs):
                    fabio.edfimage.edfimage(data=img.astype(np.float32)).write(os.path.join(source, fn))
        self.outlist = None
        destlist, ext = None, None
        out = os.path.join(self.dir, "out.h5")
        if os.path.exists(out):
            os.remove(out)
        self.out = out
        dt = np.float32 if src == "edf" else np.float64
        if dst == "np":
            self.outlist = dest = [np.zeros(1, dtype=dt) for _ in self.names]
        elif dst == "h5file":
            dest, destlist, ext = out, self.names, ".al"
        elif dst == "h5group":
            h = h5py.File(out, "w")
            self.open.append(h)
            dest, destlist, ext = h.create_group("a/b"), self.names, ".al"
        elif dst == "h5dset":
            h = h5py.File(out, "w")
            self.open.append(h)
            self.outlist = dest = [
                h.create_dataset(n, shape=(1, 1, 1), maxshape=(None, None, None), dtype=dt) for n in self.names
            ]
        elif dst == "edf":
            self.outdir = dest = os.path.join(self.dir, "edfout")
            import shutil

            shutil.rmtree(self.outdir, ignore_errors=True)
            destlist, ext = self.names, ".edf"
        self.o = cls(source, sourcelist, dest, destlist, ext, stackdim=stackdim, overwrite=overwrite, cval=cval)

    def results(self):
        """List of stacks (list of images)"""
        dst = self.kind[1]
        if dst in ("np", "h5dset"):
            arr = [np.asarray(a) for a in self.outlist]
        elif dst == "h5file":
            arr = [self.o.dest.handle[n + ".al"][()] for n in self.names]
        elif dst == "h5group":
            arr = [self.open[-1]["a/b"][n + ".al"][()] for n in self.names]
        else:
            import fabio

            ret = []
            w = len(str(self.n))
            for n in self.names:
                ret.append(
                    [
                        fabio.open(os.path.join(self.outdir, "%s_%0*d.edf" % (n, w, i))).data
                        for i in range(self.n)
                    ]
                )
            return ret
        return [[np.take(a, i, axis=self.stackdim) for i in range(a.shape[self.stackdim])] for a in arr]

    def close(self):
        if self.kind[1] == "h5file":
            self.o.dest.handle.close()
        if self.kind[0] == "h5file":
            self.o.source.handle.close()
        for h in self.open:
            h.close()


def check_result(o, results, imgs, places, shape, mode, opts, exact, cval):
    """Message when the result is not what the placement of the windows requires."""
    pad, crop, roi, rawcalc = opts
    n = len(places)
    tol = 1e-5 if exact else 0.15
    if exact == "coarse":
        tol = 0.32
    exact = exact is True
    p = np.array(places, float)  # y, x
    cofs = o.absolute_cofs(homography=True, include_pre=True)
    if cofs.shape != (n, 3, 3):
        return "information on the alignment has shape %s" % (cofs.shape,)
    sh = cofs[:, 1::-1, 2]
    if not np.allclose(cofs[:, :2, :2], np.identity(2)) or not np.allclose(cofs[:, 2], [0, 0, 1]):
        return "information on the alignment is not a translation"
    err = abs((sh - sh[0]) - (p - p[0])).max()
    if not err <= tol:
        return "shifts %s instead of %s" % ((sh - sh[0]).tolist(), (p - p[0]).tolist())
    if exact:
        sh = np.round(sh * 2) / 2
    h, w = shape
    size = np.array([h, w])
    eps = 0 if exact else 1e-3
    got = results[0][0].shape
    if pad:
        lo, hi = (-sh).min(axis=0), (size - 1 - sh).max(axis=0)
    elif crop:
        lo, hi = (-sh).max(axis=0), (size - 1 - sh).min(axis=0)
    # position of the first pixel of the result in the frame of the shifts
    cands = []
    if pad or crop:
        for d in (0, 1):
            if pad:
                a = {int(np.floor(lo[d] + eps)), int(np.floor(lo[d] - eps))}
                b = {int(np.ceil(hi[d] + eps)), int(np.ceil(hi[d] - eps))}
            else:
                a = {int(np.ceil(lo[d] + eps)), int(np.ceil(lo[d] - eps))}
                b = {int(np.floor(hi[d] + eps)), int(np.floor(hi[d] - eps))}
            cands.append([(i, j - i + 1) for i in a for j in b])
        firsts = [(y0, x0) for y0, ny in cands[0] for x0, nx in cands[1] if (ny, nx) == got]
        if not firsts:
            return "result of shape %s instead of %s" % (got, [(c[0][1], d[0][1]) for c in [cands[0]] for d in [cands[1]]])
    else:
        if got != shape:
            return "result of shape %s instead of %s" % (got, shape)
        if not roi and not rawcalc:
            ref = sh[mode[1]] if mode[0] == "fixed" else sh[0]
            if not np.allclose(ref, 0, atol=1e-6):
                return "the reference image is shifted by %s" % ref.tolist()
        firsts = [(0, 0)]
    msg = None
    for y0, x0 in firsts:
        msg = None
        for j, (res, raw) in enumerate(zip(results, imgs)):
            if len(res) != n:
                return "%d images instead of %d" % (len(res), n)
            for i in range(n):
                if res[i].shape != got:
                    return "image %d of stack %d has shape %s, others %s" % (i, j, res[i].shape, got)
                y = np.arange(got[0]) + y0 + sh[i][0]
                x = np.arange(got[1]) + x0 + sh[i][1]
                want, close = sample(raw[i], y, x, eps)
                r = np.asarray(res[i], float)
                if crop and not pad:
                    if not np.isfinite(r).all():
                        msg = "missing data in image %d of stack %d after cropping" % (i, j)
                        break
                want = np.where(np.isnan(want), cval, want)
                ok = np.isclose(r, want, rtol=1e-4, atol=1e-3 if exact else 0.5, equal_nan=True)
                if not (ok | close).all():
                    bad = np.argwhere(~(ok | close))[0]
                    msg = "image %d of stack %d at %s is %r instead of %r" % (i, j, bad.tolist(), r[tuple(bad)], want[tuple(bad)])
                    break
            if msg:
                break
        if msg is None:
            break
    return msg


def run_one(setup, method, imgs, places, shape, mode, opts, ctx, case, exact, cval, redo):
    pad, crop, roi, rawcalc = opts
    kw = dict(pad=pad, crop=crop, roi=roi)
    if rawcalc:
        kw["rawcalc"] = lambda img: img * 3 + 1
    if mode[0] == "fixed":
        kw["refimageindex"] = mode[1]
    else:
        kw["onraw"] = mode[0] == "raw"
    name = "%s %s" % (method, "pad" if pad else "crop" if crop else "plain")
    ctx.current = case
    ctx.tick(1, "alignments")
    try:
        setup.o.align(0, **kw)
        if redo:
            setup.o.align(0, redo=True)
        res = setup.results()
    except Exception as e:
        import traceback

        ctx.fail("alignment raises %s" % name, case, "raises %r" % e)
        return False
    msg = check_result(setup.o, res, imgs, places, shape, mode, opts, exact, cval)
    ctx.trans()
    if msg:
        ctx.fail("alignment %s" % name, case, msg)
        return False
    ctx.trace()
    return True


def do(case, ctx):
    """case: method, shape, places, history [(mode, opts)], stackdim, kind, cval, exact, redo"""
    method = case["method"]
    shape = tuple(case["shape"])
    places = [tuple(p) for p in case["places"]]
    nsets = case.get("nsets", 2)
    cval = NAN if case.get("cval", "nan") == "nan" else case["cval"]
    exact = {"max": True, "min": True, "centroid": True}.get(method, False)
    if case.get("blob"):
        exact = "coarse" if method == "centroid" else False
    imgs = [windows("blob" if case.get("blob") else method, shape, places, j) for j in range(nsets)]
    if case.get("int"):
        imgs = [[i.astype(int) for i in s] for s in imgs]
    s = Setup(classes()[method], imgs, case.get("stackdim", 2), tuple(case.get("kind", ("np", "np"))), cval, ctx)
    try:
        for i, (mode, opts) in enumerate(case["history"]):
            roi = opts[2]
            if roi is not None:
                roi = tuple(tuple(r) for r in roi)
            opts = (opts[0], opts[1], roi, opts[3])
            if not run_one(s, method, imgs, places, shape, tuple(mode), opts, ctx, case, exact, cval, case.get("redo")):
                return False
            ctx.state((method, shape, tuple(places), tuple(mode), opts, case.get("stackdim", 2), str(case.get("kind"))))
        return True
    finally:
        s.close()


# ----- destinations with data -----
def do_exist(case, ctx):
    """Successive alignments to one destination in which there is data already."""
    import shutil
    import h5py
    import fabio

    dst, start, steps = case["exist"]
    shape = (4, 5)
    places = [(1, 1), (2, 1), (0, 3)]
    n = len(places)
    names = ["a", "b"]
    other = os.path.join(ctx.scratch, "exist")
    shutil.rmtree(other, ignore_errors=True)
    os.makedirs(other)
    base = os.path.join(other, "out[1]") if "edf" in dst else os.path.join(other, "out[1].h5")
    group = {"h5file": "/", "h5group": "/g/h", "edf": base, "edfnew": os.path.join(other, "x", "out")}[dst]
    h5 = dst.startswith("h5")
    ext = ".al" if h5 else ".edf"

    def snapshot():
        ret = {}
        if h5:

            def visit(name, obj):
                if isinstance(obj, h5py.Dataset):
                    v = obj[()]
                    ret["/" + name] = (v.dtype.str, v.shape, v.tobytes())

            if os.path.exists(base):
                with h5py.File(base, "r") as h:
                    h.visititems(visit)
        else:
            for root, _, files in os.walk(other):
                for f in files:
                    with open(os.path.join(root, f), "rb") as fh:
                        ret[os.path.join(root, f)] = fh.read()
        return ret

    def put(group, name, data):
        if h5:
            with h5py.File(base, "a") as h:
                h[group.rstrip("/") + "/" + name] = data
        else:
            os.makedirs(group, exist_ok=True)
            if np.ndim(data) == 3:
                for i in range(data.shape[2]):
                    fabio.edfimage.edfimage(data=data[..., i]).write(os.path.join(group, "%s_%d.edf" % (name[:-4], i)))
            else:
                fabio.edfimage.edfimage(data=np.zeros((2, 2))).write(os.path.join(group, name))

    import fabio.edfimage

    stack = shape + (n,)
    if start != "none":
        put(group, "other" + ext, np.arange(3.0) if h5 else np.zeros((2, 2)))
    if start == "same":
        for s in names:
            put(group, s + ext, np.full(stack, 7.0))
    elif start == "one":
        put(group, names[1] + ext, np.full(stack, 7.0))
    elif start == "type":
        for s in names:
            put(group, s + ext, np.full(stack, 7, np.int32))
    elif start == "type1":
        put(group, names[0] + ext, np.full(stack, 7.0))
        put(group, names[1] + ext, np.full(stack, 7, np.float32))
    elif start == "shape":
        for s in names:
            put(group, s + ext, np.full((2, 3, 4), 7.0))
    elif start == "next":
        for s in names:
            put(group, s + ext, np.full(stack, 7.0))
        nxt = group.rstrip("/") + ("/entry1" if h5 else "_1")
        put(nxt, names[0] + ext, np.full(stack, 8.0))

    o = h = None
    ctx.tick(1, "alignments to existing destinations")
    for k, (overwrite, optname, scale) in enumerate(steps):
        imgs = [windows("max", shape, places, j) for j in (0, 1)]
        imgs = [[i * scale / 8 for i in s] for s in imgs]
        before = snapshot()
        opts = OPTS[optname]
        source = [np.stack(s, axis=2) for s in imgs]
        try:
            if dst == "h5group":
                h = h5py.File(base, "a")
                dest = h.require_group(group)
            else:
                dest = base if dst != "edfnew" else group
            o = classes()["max"](source, None, dest, names, ext, stackdim=2, overwrite=overwrite, cval=NAN)
            o.align(0, refimageindex=0, pad=opts[0], crop=opts[1])
        except Exception as e:
            ctx.fail("alignment to existing data raises", case, "step %d raises %r" % (k, e))
            return False
        finally:
            if dst == "h5group" and h is not None:
                h.close()
            elif dst == "h5file" and o is not None:
                o.dest.handle.close()
        after = snapshot()
        ctx.trans()
        lost = [p for p in before if p not in after]
        changed = [p for p in before if p in after and after[p] != before[p]]
        new = sorted(p for p in after if p not in before)
        msg = None
        if lost:
            msg = "%s disappeared" % lost
        elif changed and not overwrite:
            msg = "%s modified without overwriting" % changed
        elif any(os.path.basename(p).startswith("other") for p in changed):
            msg = "%s modified which is not a result" % changed
        else:
            where = sorted({os.path.dirname(p) for p in (new + changed)})
            if not new and not changed:
                # the same data was there already
                where = [group] if overwrite else []
            if len(where) != 1:
                msg = "results in %s" % where
            else:
                try:
                    if h5:
                        res = []
                        with h5py.File(base, "r") as f:
                            for s in names:
                                a = f[where[0].rstrip("/") + "/" + s + ext][()]
                                res.append([a[..., i] for i in range(a.shape[2])])
                    else:
                        res = [[fabio.open(os.path.join(where[0], "%s_%d.edf" % (s, i))).data for i in range(n)] for s in names]
                except Exception as e:
                    msg = "result cannot be read: %r" % e
        if msg is None:
            msg = check_result(o, res, imgs, places, shape, MODES[0], opts, True, NAN)
        if msg:
            ctx.fail("alignment to existing data %s" % dst, case, "step %d: %s" % (k, msg.replace(ctx.scratch, "")))
            return False
        ctx.state((dst, start, steps[: k + 1]).__repr__())
    ctx.trace()
    return True


# ----- tasks -----
REFS = [0, 1, -1, "first", "middle", "last", 0.0, 0.5, 1.0, None]


class Info:
    def __init__(self, cof):
        self.cof = cof

    def absolute_cofs(self, **_):
        ret = np.stack([np.identity(3)] * len(self.cof))
        ret[:, :2, 2] = self.cof
        return ret


def do_task(case, ctx):
    from spectrocrunch.io import nxfs
    from spectrocrunch.process.utils import create_task

    ref, opt, stackdim, mult, refname, places = [case["task"][k] for k in ("ref", "opt", "stackdim", "mult", "refname", "places")]
    method = case["task"]["method"]
    shape = (4, 5)
    n = len(places)
    ctx.current = case
    ctx.tick(1, "tasks")
    fn = os.path.join(ctx.scratch, "task.h5")
    for f in os.listdir(ctx.scratch):
        if f.startswith("task"):
            os.remove(os.path.join(ctx.scratch, f))
    imgs = [windows(method, shape, places, j) for j in (0, 1)]
    if refname == "B":
        imgs = imgs[::-1]
    root = nxfs.Path("/", h5file=fn).nxroot()
    entry = root.new_nxentry()
    proc = entry.nxprocess("in", parameters={"a": 1}, dependencies=[])
    ax = [("y", 1.0 + 2 * np.arange(4.0), {"units": "cm"}), ("x", 10 - 3 * np.arange(5.0), {"units": "mm"})]
    ax.insert(stackdim, ("z", np.arange(n) ** 2.0, {}))
    for g, sig in (("g1", "A"), ("g2", "B")):
        d = proc.results.nxdata(g)
        d.add_signal(sig, data=np.stack(imgs["AB".index(sig)], axis=stackdim))
        d.set_axes(*ax)
    pad, crop, roi = {"plain": (False, False, None), "pad": (True, False, None), "crop": (False, True, None), "roi": (False, True, ((0, 4), (0, None)))}[opt]
    sign = -1 if mult else 1
    use = {"max": "min", "min": "max"}.get(method, method) if mult else method
    par = {"refimageindex": ref, "crop": crop, "roi": roi, "stackdim": stackdim, "reference": "/" + refname}
    if mult:
        par.update(alignmultiplier=-2, alignoffset=3)
    name = "task %s" % opt
    try:
        task = create_task(dependencies=proc, method="align", alignmethod=use, outputparent=entry, name="out", **par)
        task.run()
        if not task.done:
            raise RuntimeError("not done")
        res = task.output.results
        out = []
        for g, sig in (("g1", "A"), ("g2", "B")):
            d = res[g][sig].read()
            out.append([np.take(d, i, axis=stackdim) for i in range(d.shape[stackdim])])
        cof = res["change-of-frame"].read()
        axes = [[(a, v.magnitude, "{:~}".format(v.units)) for a, v, _ in res[g].axes] for g in ("g1", "g2")]
    except Exception as e:
        ctx.fail("alignment %s raises" % name, case, "raises %r" % e)
        return False
    if refname == "B":
        out = out[::-1]
        imgs = imgs[::-1]
    if ref is None:
        mode = ("raw", None)
    else:
        i = {"first": 0, "last": -1, "middle": n // 2}.get(ref, ref) if isinstance(ref, str) else ref
        if isinstance(ref, float):
            i = min(int(round(ref * n)), n - 1)
        mode = ("fixed", i)
    # tasks pad when they do not crop
    msg = check_result(Info(cof), out, imgs, places, shape, mode, (not crop, crop, roi, mult), True, NAN)
    if msg is None:
        p = np.array(places)
        sh = np.asarray(cof, float)[:, ::-1]
        if crop:
            lo, hi = (-sh).max(axis=0), (np.array(shape) - 1 - sh).min(axis=0)
        else:
            lo, hi = (-sh).min(axis=0), (np.array(shape) - 1 - sh).max(axis=0)
        want = []
        for k, (a, v, m) in enumerate(ax):
            if k != stackdim:
                d = 0 if a == "y" else 1
                v = v[0] + (v[1] - v[0]) * np.arange(lo[d], hi[d] + 1)
            want.append((a, v, m.get("units", "")))
        for got in axes:
            ok = len(got) == len(want) and all(
                g[0] == w[0] and g[2] == w[2] and np.shape(g[1]) == np.shape(w[1]) and np.allclose(g[1], w[1]) for g, w in zip(got, want)
            )
            if not ok:
                msg = "axes %s instead of %s" % (got, want)
    if msg:
        ctx.fail("alignment %s" % name, case, msg)
        return False
    ctx.trace()
    ctx.state(repr(case))
    return True


OPTS = {"plain": (False, False, None, False), "pad": (True, False, None, False), "crop": (False, True, None, False), "both": (True, True, None, False)}
SPOTS = [(0, 0), (2, 1), (3, 4), (0, 3), (3, 0)]
ROIS0 = [(None, None), (0, None), (0, 4), (1, -1), (-3, None)]
ROIS1 = [(None, None), (1, 5), (1, -1), (0, 4), (-4, None)]


def inside(places, roi, shape):
    for (a, b), d, size in zip(roi, (0, 1), shape):
        r = range(size)[slice(a, b)]
        if any(p[d] not in r for p in places):
            return False
    return True


def cases(shard, thorough):
    w = shard["what"]
    h = lambda m, o: [[list(m), list(o)]]
    if w == "two":
        pts = list(itertools.product(range(4), range(5)))
        for p in pts[shard["part"] :: shard["of"]]:
            for q in pts:
                for m in MODES:
                    for o in OPTS.values():
                        if not o[1] or not o[0] or m[1] == 0:
                            yield {"method": shard["method"], "shape": [4, 5], "places": [p, q], "history": h(m, o)}
    elif w == "three":
        pts = SPOTS if not thorough else list(itertools.product(range(4), range(0, 5)))
        for ps in list(itertools.product(pts, repeat=3))[shard["part"] :: shard["of"]]:
            for m in MODES:
                for o in OPTS.values():
                    yield {"method": shard["method"], "shape": [4, 5], "places": ps, "history": h(m, o)}
    elif w == "shapes":
        for shape in ((1, 5), (5, 1), (2, 2), (1, 2)):
            pts = list(itertools.product(range(shape[0]), range(shape[1])))
            for ps in itertools.product(pts, repeat=2):
                for o in OPTS.values():
                    for m in MODES:
                        yield {"method": shard["method"], "shape": shape, "places": ps, "history": h(m, o)}
            for roi in ([(None, None), (None, None)], [(0, None), (-2, None)]):
                for ps in itertools.product(pts, repeat=2):
                    if inside(ps, roi, shape):
                        for o in list(OPTS.values())[:3]:
                            yield {"method": shard["method"], "shape": shape, "places": ps, "history": h(MODES[1], (o[0], o[1], roi, False))}
    elif w == "roi":
        spots = [(1, 1), (2, 3), (3, 2)] + ([(1, 4), (2, 1), (0, 0), (3, 4)] if thorough else [])
        for roi in list(itertools.product(ROIS0, ROIS1))[shard["part"] :: shard["of"]]:
            for ps in itertools.product(spots, repeat=3):
                if inside(ps, roi, (4, 5)):
                    for raw in (False, True):
                        for o in list(OPTS.values())[:3]:
                            for m in MODES:
                                yield {"method": "max", "shape": [4, 5], "places": ps, "history": h(m, (o[0], o[1], roi, raw))}
    elif w == "missing":
        for method in ("max", "min"):
            for ps in itertools.product(SPOTS[:4], repeat=2):
                for o in OPTS.values():
                    for m in MODES:
                        for cv in (0, -1, 5):
                            yield {"method": method, "shape": [4, 5], "places": ps, "history": h(m, o), "cval": cv}
    elif w == "kinds":
        for dst in ("np", "h5file", "h5group", "h5dset", "edf"):
            for sd in (0, 1, 2):
                for o in list(OPTS.values())[:3]:
                    for m in MODES:
                        for i in (False, True):
                            yield {"method": "max", "shape": [4, 5], "places": [(1, 1), (2, 1), (0, 3)], "history": h(m, o), "stackdim": sd, "kind": [shard["src"], dst], "int": i}
    elif w == "history":
        opts = list(OPTS.values())[:3] + [(False, False, [[0, 3], [1, 5]], False), (True, False, [[0, 3], [1, 5]], True)]
        first = list(itertools.product(MODES, opts))
        for places in [((0, 1), (2, 1), (1, 3)), ((0, 1), (0, 1), (0, 1)), ((2, 3), (2, 1), (1, 3))]:
            for a in first[shard["part"] :: shard["of"]]:
                for rest in itertools.product(first, repeat=2 if thorough else 1):
                    for redo in (False, True):
                        yield {"method": "max", "shape": [4, 5], "places": places, "history": [a] + list(rest), "redo": redo}
    elif w == "fraction":
        fr = (0, 1, -2, 0.4, -0.3) if not thorough else (0, 1, -2, 0.4, -0.3, 0.2, -0.45, 1.3)
        for sy, sx in itertools.product(fr, repeat=2):
            for o in list(OPTS.values())[:3]:
                for m in MODES:
                    yield {"method": shard["method"], "shape": [11, 12], "places": [(5, 5), (5 + sy, 5 + sx), (6 - sx, 6)], "history": h(m, o), "blob": True}
        for shape in ((1, 12), (12, 1)):
            for f in fr:
                places = [(0, 5), (0, 5 + f), (0, 6)]
                if shape[1] == 1:
                    places = [p[::-1] for p in places]
                for o in list(OPTS.values())[:3]:
                    for m in MODES:
                        yield {"method": shard["method"], "shape": shape, "places": places, "history": h(m, o), "blob": True}
    elif w == "exist":
        step = list(itertools.product((False, True), ("plain", "pad", "crop"), (1, 2)))
        for dst in ("h5file", "h5group", "edf", "edfnew"):
            for start in ("none", "other", "same", "one", "type", "type1", "shape", "next"):
                for a in step:
                    yield {"exist": [dst, start, [a]]}
                    for b in step:
                        if a[2] == 1:
                            for c in step if thorough or (a[1], b[1]) == ("plain", "plain") else [None]:
                                yield {"exist": [dst, start, [a, b] + ([c] if c and c[2] == 1 else [])]}
    elif w == "tasks":
        P = [[(1, 1), (2, 1), (0, 3)], [(0, 0), (3, 4), (2, 1), (1, 4)]]
        k = 0
        for places in P:
            for ref in REFS:
                for opt in ("pad", "crop", "roi"):
                    for sd in (0, 1, 2):
                        k += 1
                        if not thorough and (k % 2 or not places[0][0]) and sd:
                            continue
                        for method in ("max", "min", "centroid") if thorough else (("max", "min", "centroid")[k % 3],):
                            yield {
                                "task": {
                                    "ref": ref,
                                    "opt": opt,
                                    "stackdim": sd,
                                    "method": method,
                                    "mult": method != "centroid" and k % 4 == 1,
                                    "refname": "AB"[k % 5 == 0],
                                    "places": places,
                                }
                            }


def shards(tier):
    th = tier == "thorough"
    out = []
    n = 4
    for m in ("max", "min", "centroid"):
        out += [{"what": "two", "method": m, "part": i, "of": n} for i in range(n)]
        k = 40 if th else 4
        out += [{"what": "three", "method": m, "part": i, "of": k} for i in range(k)]
        out.append({"what": "shapes", "method": m})
    out += [{"what": "roi", "part": i, "of": 8} for i in range(8)]
    out.append({"what": "missing"})
    out += [{"what": "kinds", "src": s} for s in ("np", "h5file", "h5group", "h5dset", "edf")]
    k = 25 if th else 5
    out += [{"what": "history", "part": i, "of": k} for i in range(k)]
    out += [{"what": "fraction", "method": m} for m in ("centroid", "gaussmax", "fft")]
    k = 16
    out += [{"what": "exist", "part": i, "of": 24 if th else 8} for i in range(24 if th else 8)]
    out += [{"what": "tasks", "part": i, "of": k} for i in range(k)]
    return out


def run_shard(shard, ctx):
    it = cases(shard, ctx.thorough)
    if shard["what"] in ("tasks", "exist"):
        it = itertools.islice(it, shard["part"], None, shard["of"])
    for case in it:
        if "task" in case:
            do_task(case, ctx)
        elif "exist" in case:
            do_exist(case, ctx)
        else:
            do(case, ctx)


def replay(case, ctx):
    if "task" in case:
        do_task(case, ctx)
    elif "exist" in case:
        do_exist(case, ctx)
    else:
        do(case, ctx)
