"""C19: merged (stacked, tiled) datasets against direct assembly; chunked slicing."""

import itertools
import os

import h5py
import numpy as np

from mc.checks import tasklib

LEVEL = "model_checking"
BOUNDS = {
    "quick": "stacking and tiling of 1 to 3 sources (up to 4 for tiling) with fast and slow dimensions of 1 to 3 points, from one line to one point more than a complete scan in each source, detector dimensions (), (2,), (2,3), different for each source, 2 fill values, 3 file arrangements; scalars, text, links and subgroups; 24 stack and tile tasks with 2 and 3 sources, positioner in every order; matching of pairs and triples of shapes; slicing of all shapes with up to 4 dimensions of 1 to 4 for every memory limit at which the result changes",
    "thorough": "dimensions up to 4, 4 sources, tiles of up to 6, shapes of up to 5 dimensions",
}
ASSUMPTIONS = [
    "scans have one dimension in the file (as saved by Bliss), the fast axis is the first of the scan shape",
    "an incomplete line at the end of a scan may be dropped, scans of less than a line may be refused",
]


def worker_init():
    tasklib.quiet()


# ---------------------------------------------------------------- oracle
def source_data(i, n, det, dtype=np.int32):
    size = n * int(np.prod(det, dtype=int))
    return (1000 * (i + 1) + np.arange(size)).reshape((n,) + tuple(det)).astype(dtype)


def place(out, allowed, corner, data, scan):
    """Put the points of one source at its place. allowed: 1 must, 2 may (incomplete line)"""
    n0, n1 = scan
    n = min(len(data), n0 * n1)
    det = tuple(slice(0, m) for m in data.shape[1:])
    for k in range(n):
        at = corner[:-2] + (corner[-2] + k // n0, corner[-1] + k % n0) + det
        out[at] = data[k]
        allowed[at] = 1 if k < n // n0 * n0 else 2


def expect_stack(datas, scan, fill, one=False):
    det = tuple(np.max([d.shape[1:] for d in datas], axis=0)) if datas[0].ndim > 1 else ()
    shape = (len(datas), scan[1], scan[0]) + tuple(int(x) for x in det)
    out = np.full(shape, fill, dtype=datas[0].dtype)
    allowed = np.zeros(shape, dtype=int)
    for i, d in enumerate(datas):
        place(out, allowed, (i, 0, 0), d, scan)
    if one and len(datas) == 1:
        return out[0], allowed[0]
    return out, allowed


def expect_tile(datas, scan, tile, fill):
    det = tuple(np.max([d.shape[1:] for d in datas], axis=0)) if datas[0].ndim > 1 else ()
    n0, n1 = scan
    t0, t1 = tile
    shape = (n1 * t1, n0 * t0) + tuple(int(x) for x in det)
    out = np.full(shape, fill, dtype=datas[0].dtype)
    allowed = np.zeros(shape, dtype=int)
    for i, d in enumerate(datas):
        place(out, allowed, (i // t0 * n1, i % t0 * n0), d, scan)
    return out, allowed


def agrees(got, exp, allowed, fill):
    if got.shape != exp.shape:
        return False
    ok = (got == exp) | ((allowed == 2) & (got == fill))
    return bool(ok.all())


# ---------------------------------------------------------------- merging groups
def write_sources(d, datas, arrangement, fill, extra=None):
    """Returns the names of the files and groups"""
    names = []
    for i, data in enumerate(datas):
        if arrangement == "one":
            fn, path = os.path.join(d, "src.h5"), "/scan%d" % i
        elif arrangement == "files":
            fn, path = os.path.join(d, "src%d.h5" % i), "/entry/scan"
        else:
            fn, path = os.path.join(d, "out.h5"), "/scan%d" % i
        with h5py.File(fn, "a") as f:
            g = f.create_group(path)
            g.create_dataset("data", data=data, fillvalue=fill)
            g.attrs["mark"] = i
            if extra:
                extra(g, i, data)
        names.append((fn, path))
    return names


def clean(d):
    for n in os.listdir(d):
        if n.endswith(".h5"):
            os.remove(os.path.join(d, n))


def merge(d, names, shape_map, kw):
    from spectrocrunch.process import h5merge

    out = os.path.join(d, "out.h5")
    files = {}
    try:
        for fn, path in names:
            if fn != out and fn not in files:
                files[fn] = h5py.File(fn, "r")
        with h5py.File(out, "a") as f:
            sources = [(f if fn == out else files[fn])[path] for fn, path in names]
            h5merge.merge_h5groups(f, "merged", sources, shape_map, **kw)
    except Exception as e:
        return e
    finally:
        for f in files.values():
            f.close()
    return out


def lengths(scan, thorough):
    n0, n1 = scan
    full = n0 * n1
    out = {full, full - 1, full + 1, n0, max(n0, full - n0), full - 2}
    return sorted(x for x in out if x > 0)


DETS = [(), (2,), (2, 3)]


def one_merge(ctx, mode, scan, lens, dets, fill, arrangement, tile=None, one=False, case=None):
    d = ctx.scratch
    clean(d)
    case = case or {"kind": "merge", "mode": mode, "scan": scan, "lens": lens, "dets": dets, "fill": fill, "arrangement": arrangement, "tile": tile, "one": one}
    ctx.tick()
    ctx.state(repr(sorted(case.items(), key=str)))
    ctx.trans(1)
    ctx.trace(1)
    ctx.current = case
    datas = [source_data(i, n, det) for i, (n, det) in enumerate(zip(lens, dets))]
    names = write_sources(d, datas, arrangement, fill)
    shape_map = {(n,): tuple(scan) for n in lens}
    kw = {"nscandim": 1}
    if tile:
        kw["tile_shape"] = tuple(tile)
    if one:
        kw["no_stack_dimension"] = True
    r = merge(d, names, shape_map, kw)
    what = "%s of sources with %s points and detector dimensions %s, scan %s%s" % (mode, lens, dets, scan, " tiles %s" % (tile,) if tile else "")
    short = any(n < scan[0] for n in lens)
    many = tile and len(lens) > tile[0] * tile[1]
    if isinstance(r, Exception):
        ctx.outcome("refused")
        if not short and not many:
            ctx.fail("refused %s det=%d" % (mode, len(dets[0])), case, "%s: %s %s" % (what, type(r).__name__, r))
        return
    if many:
        ctx.fail("too many", case, "%s: not refused" % what)
        return
    with h5py.File(r, "r") as f:
        got = f["merged/data"][()]
    if mode == "stack":
        exp, allowed = expect_stack(datas, scan, fill, one)
    else:
        exp, allowed = expect_tile(datas, scan, tile, fill)
    ctx.outcome("%s %d" % (mode, got.ndim))
    if not agrees(got, exp, allowed, fill):
        ctx.fail("value %s det=%d complete=%s" % (mode, len(dets[0]), all(n == scan[0] * scan[1] for n in lens)), case, "%s: %s %s instead of %s %s" % (what, got.shape, got.tolist(), exp.shape, exp.tolist()))


def run_stack(shard, ctx):
    scan = tuple(shard["scan"])
    ls = lengths(scan, ctx.thorough)
    k = 0
    for ns in (1, 2, 3):
        for lens in itertools.product(ls, repeat=ns):
            if ns == 3 and not ctx.thorough and len(set(lens)) < 3:
                continue
            for det in DETS:
                variants = [[det] * ns]
                if det and ns > 1:
                    variants.append([tuple(x - (1 if i == 0 else 0) for x in det) for i in range(ns)])
                for dets in variants:
                    k += 1
                    fill = (0, -1)[k % 2]
                    arr = ("one", "files", "same")[k % 3]
                    one_merge(ctx, "stack", scan, list(lens), dets, fill, arr)
                    if ns == 1:
                        one_merge(ctx, "stack", scan, list(lens), dets, fill, arr, one=True)


def run_tile(shard, ctx):
    scan = tuple(shard["scan"])
    ls = lengths(scan, ctx.thorough)
    full = scan[0] * scan[1]
    tiles = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 1)] + ([(2, 3), (3, 2)] if ctx.thorough else [])
    k = 0
    for tile in tiles:
        n = tile[0] * tile[1]
        for ns in range(1, min(n, 4 if not ctx.thorough else 6) + 2):
            combos = list(itertools.product(ls, repeat=ns)) if ns <= 2 else [tuple(full if j != i else m for j in range(ns)) for i in range(ns) for m in ls]
            for lens in dict.fromkeys(combos):
                for det in DETS:
                    k += 1
                    if not ctx.thorough and ns > 2 and k % 2:
                        continue
                    variants = [[det] * ns]
                    if det and ns > 1:
                        variants.append([tuple(x - (1 if i == 0 else 0) for x in det) for i in range(ns)])
                    fill = (0, -1)[k % 2]
                    arr = ("one", "files", "same")[k % 3]
                    one_merge(ctx, "tile", scan, list(lens), variants[k // 7 % len(variants)], fill, arr, tile=tile)


# ---------------------------------------------------------------- other content of groups
def run_content(shard, ctx):
    from spectrocrunch.process import h5merge

    scan = (3, 2)
    for mode, ns, arrangement in itertools.product(("stack", "tile"), (1, 2, 3), ("one", "files", "same")):
        case = {"shard": shard, "mode": mode, "ns": ns, "arrangement": arrangement}
        ctx.tick()
        ctx.state(repr(case))
        ctx.trans(1)
        ctx.trace(1)
        ctx.current = case
        clean(ctx.scratch)
        datas = [source_data(i, 6, ()) for i in range(ns)]

        def extra(g, i, data):
            g["number"] = 1.5 * i
            g["start_time"] = "start%d" % i
            g["end_time"] = "end%d" % i
            sub = g.create_group("sub")
            sub.attrs["units"] = "um"
            sub["deep"] = data * 2.0
            sub["count"] = i
            g["alias"] = h5py.SoftLink("sub/deep")
            g["other"] = source_data(i + 7, 4, ())

        names = write_sources(ctx.scratch, datas, arrangement, 0, extra)
        kw = {"nscandim": 1}
        if mode == "tile":
            kw["tile_shape"] = (ns, 1)
        shape_map = {(6,): scan, (4,): (2, 2)}
        r = merge(ctx.scratch, names, shape_map, kw)
        if isinstance(r, Exception):
            ctx.fail("content refused", case, "%s of %d groups: %s %s" % (mode, ns, type(r).__name__, r))
            continue
        ctx.outcome("content " + mode)
        problems = []
        with h5py.File(r, "r") as f:
            m = f["merged"]
            for path, data, sc in (("data", datas, scan), ("sub/deep", [d * 2.0 for d in datas], scan), ("alias", [d * 2.0 for d in datas], scan), ("other", [source_data(i + 7, 4, ()) for i in range(ns)], (2, 2))):
                exp = expect_stack(data, sc, 0)[0] if mode == "stack" else expect_tile(data, sc, (ns, 1), 0)[0]
                got = m[path][()] if path in m else None
                if got is None or got.shape != exp.shape or not np.array_equal(got, exp):
                    problems.append("%s: %s instead of %s" % (path, None if got is None else got.tolist(), exp.tolist()))
            for path, exp in (("number", [1.5 * i for i in range(ns)]), ("sub/count", list(range(ns)))):
                got = np.atleast_1d(m[path][()]).tolist() if path in m else None
                if got != exp:
                    problems.append("%s: %s instead of %s" % (path, got, exp))
            for path, exp in (("start_time", "start0"), ("end_time", "end%d" % (ns - 1))):
                got = m[path][()] if path in m else None
                got = got.decode() if isinstance(got, bytes) else got
                if not isinstance(got, str) or got != exp:
                    problems.append("%s: %r instead of %r" % (path, got, exp))
            if m["sub"].attrs.get("units") != "um":
                problems.append("attributes of subgroup")
            if not isinstance(m.get("alias", getlink=True), h5py.SoftLink):
                problems.append("alias is not a link")
        for p in problems:
            ctx.fail("content " + p.split(":")[0] + " " + mode, case, "%s of %d groups (%s): %s" % (mode, ns, arrangement, p))
    # Bliss scans given by URI
    for ns, (n0, n1), mesh, tofile in itertools.product((1, 2, 3), ((3, 2), (2, 3), (1, 4)), (False, True), (False, True)):
        case = {"shard": shard, "bliss": [ns, n0, n1, mesh, tofile]}
        ctx.tick()
        ctx.state(repr(case))
        ctx.trans(1)
        ctx.trace(1)
        ctx.current = case
        clean(ctx.scratch)
        datas = [source_data(i, n0 * n1, (2,)) for i in range(ns)]
        title = "l2scan sy 0 1 %d sz 0 1 %d 0.1" % (n0, n1 - 1)

        def extra(g, i, data):
            g["title"] = title
            g["extra"] = data[:, 0] + 0.5

        names = write_sources(ctx.scratch, datas, "files", 0, extra)
        uris = ["%s::%s" % x for x in names]
        cls = h5merge.MergedBlissMesh if mesh else h5merge.MergedBlissScan
        kw = {"filename": os.path.join(ctx.scratch, "out.h5")} if tofile else {}
        try:
            with cls(uris, **kw) as merged:
                got = {k: merged.merged_scan[k][()] for k in ("data", "extra")}
        except Exception as e:
            ctx.fail("bliss failed", case, "merging %d scans %s: %s %s" % (ns, title, type(e).__name__, e))
            continue
        for k, ds in (("data", datas), ("extra", [x[:, 0] + 0.5 for x in datas])):
            exp = expect_stack(ds, (n0, n1), 0)[0] if mesh else np.stack(ds)
            if got[k].shape != exp.shape or not np.array_equal(got[k], exp):
                ctx.fail("bliss value mesh=%s" % mesh, case, "merging %d scans %s: %s is %s instead of %s" % (ns, title, k, got[k].tolist(), exp.tolist()))


# ---------------------------------------------------------------- tasks
def run_tasks(shard, ctx):
    from spectrocrunch.io import nxfs
    from spectrocrunch.process import nxprocess
    from spectrocrunch.process.utils import create_task

    class Source(nxprocess.Task):
        """Makes maps out of a scan"""

        def _parameters_defaults(self):
            super(Source, self)._parameters_defaults()
            self.required_parameters |= {"number"}

        def _execute(self):
            i = self.parameters["number"]
            for g, names in (("parameters", ("K", "L")), ("counters", ("I0",))):
                nxdata = self.temp_nxresults.nxdata(g)
                for k, s in enumerate(names):
                    nxdata.add_signal(s, data=DATA[(g, s, i)])

    DATA = {}
    n0, n1 = shard["scan"]
    ns = shard["ns"]
    d = ctx.scratch
    for title, order, incomplete in itertools.product(("amesh", "fscan2d", "l2scan"), itertools.permutations(range(ns)), (False, True)):
        if shard["title"] != title:
            continue
        for method, params in (
            ("stack", {}),
            ("stack", {"stack_positioner": "sz"}),
            ("tile", {"tile_shape": [ns, 1]}),
            ("tile", {"tile_shape": [2, (ns + 1) // 2]}),
        ):
            if method != shard["method"] or (order != tuple(range(ns)) and not params.get("stack_positioner")):
                continue
            case = {"shard": shard, "title": title, "order": list(order), "method": method, "params": params, "incomplete": incomplete}
            ctx.tick()
            ctx.state(repr(case))
            ctx.trans(1)
            ctx.trace(1)
            ctx.current = case
            clean(d)
            cmd = {
                "amesh": "amesh sy 0 1 %d sx 0 1 %d 0.1" % (n0 - 1, n1 - 1),
                "fscan2d": "fscan2d sy 0 1 %d sx 0 1 %d 0.1" % (n1, n0),
                "l2scan": "l2scan sy 0 1 %d sx 0 1 %d 0.1" % (n0, n1 - 1),
            }[title]
            DATA.clear()
            tasks = []
            for i in range(ns):
                n = n0 * n1 - (1 if incomplete and i == ns - 1 else 0)
                for k, key in enumerate((("parameters", "K"), ("parameters", "L"), ("counters", "I0"))):
                    DATA[key + (i,)] = source_data(10 * i + k, n, (), np.float64)
                fn = os.path.join(d, "src%d.h5" % i)
                root = nxfs.Path("/", h5file=fn).nxroot()
                entry = root.nxentry(name="entry")
                with h5py.File(fn, "a") as f:
                    if "title" in f["entry"]:
                        del f["entry/title"]
                    f["entry/title"] = cmd
                    f["entry/instrument/positioners/sz"] = float(order[i])
                t = create_task(dependencies=[entry], method="source", _task=Source, number=i, name="source", outputparent=entry)
                t.run()
                tasks.append(t)
            out = nxfs.Path("/", h5file=os.path.join(d, "out.h5")).nxroot().nxentry(name="entry")
            try:
                t = create_task(dependencies=tasks, method=method, outputparent=out, **params)
                t.run()
                done = t.done
                path = t.output.path if done else None
            except Exception as e:
                ctx.fail("task %s" % method, case, "%s task of %d scans %s: %s %s" % (method, ns, cmd, type(e).__name__, e))
                continue
            if not done:
                ctx.fail("task %s not done" % method, case, "%s task %s of %d scans %s fails" % (method, params, ns, cmd))
                continue
            ctx.outcome("task " + method)
            seq = sorted(range(ns), key=lambda i: order[i]) if "stack_positioner" in params else list(range(ns))
            with h5py.File(os.path.join(d, "out.h5"), "r") as f:
                res = f[path]["results"]
                for g, s in (("parameters", "K"), ("parameters", "L"), ("counters", "I0")):
                    datas = [DATA[(g, s, i)] for i in seq]
                    if method == "stack":
                        exp, allowed = expect_stack(datas, (n0, n1), 0, one=ns == 1 and not params)
                    else:
                        exp, allowed = expect_tile(datas, (n0, n1), params["tile_shape"], 0)
                    node = res[g]
                    got = node[s][()] if s in node else None
                    if got is None or not agrees(got, exp, allowed, 0):
                        ctx.fail("task value %s" % method, case, "%s task %s of %d scans %s (positions %s): %s/%s is %s instead of %s" % (method, params, ns, cmd, order, g, s, None if got is None else got.tolist(), exp.tolist()))
                        break
                    axes = [a.decode() if isinstance(a, bytes) else str(a) for a in np.atleast_1d(node.attrs.get("axes", []))]
                    sizes = [node[a].shape for a in axes]
                    if sizes != [(x,) for x in exp.shape]:
                        ctx.fail("task axes %s" % method, case, "%s task %s of %d scans: axes %s of sizes %s for data of shape %s" % (method, params, ns, axes, sizes, exp.shape))
                        break
                    if params.get("stack_positioner") and node["sz"][()].tolist() != sorted(float(o) for o in order):
                        ctx.fail("task positions", case, "stack task: positions %s" % node["sz"][()].tolist())
                        break


# ---------------------------------------------------------------- slicing
def run_slicing(shard, ctx):
    from spectrocrunch.math.slicing import slice_generator

    nd = shard["nd"]
    top = shard["top"]
    for shape in itertools.product(range(1, top + 1), repeat=nd):
        a = np.arange(int(np.prod(shape))).reshape(shape)
        for dtype in ("u1", "f4", "f8"):
            item = np.dtype(dtype).itemsize
            sizes = np.cumprod(shape) * item
            limits = sorted({float(x) for x in sizes} | {float(x) - 0.5 for x in sizes} | {0.25, float(sizes[-1] * 2)})
            for lim in limits:
                case = {"kind": "slicing", "shape": list(shape), "dtype": dtype, "limit": lim}
                ctx.tick()
                ctx.current = case
                count = np.zeros(shape, dtype=int)
                biggest = 0
                what = "slices of shape %s %s within %s bytes" % (shape, dtype, lim)
                try:
                    for idx in slice_generator(shape, dtype, mb_threshold=lim / 1024.0**2):
                        count[idx] += 1
                        biggest = max(biggest, a[idx].size * item)
                except Exception as e:
                    ctx.fail("slicing", case, "%s: %s %s" % (what, type(e).__name__, e))
                    continue
                ctx.outcome("slicing")
                if (count != 1).any():
                    ctx.fail("slicing count", case, "%s: elements are visited %s times" % (what, sorted(set(count.ravel().tolist()))))
                # the first dimension is never split
                if biggest > max(lim * (1 + 1e-12), shape[0] * item):
                    ctx.fail("slicing size", case, "%s: a slice of %d bytes" % (what, biggest))
        ctx.state(("slicing", shape))
        ctx.trans(1)
        ctx.trace(1)


# ---------------------------------------------------------------- shards
def shards(tier):
    top = 3 if tier == "quick" else 4
    out = [{"kind": "content"}]
    for scan in itertools.product(range(1, top + 1), repeat=2):
        out.append({"kind": "stack", "scan": list(scan)})
        out.append({"kind": "tile", "scan": list(scan)})
    for scan in ((3, 2), (2, 3), (1, 2)) if tier == "quick" else ((3, 2), (2, 3), (1, 2), (4, 3), (3, 1)):
        for ns in (1, 2, 3) if tier != "quick" else (2, 3):
            for title in ("amesh", "fscan2d", "l2scan"):
                for method in ("stack", "tile"):
                    if tier == "quick" and (ns + scan[0] + len(title) + len(method)) % 2:
                        continue
                    out.append({"kind": "tasks", "scan": list(scan), "ns": ns, "title": title, "method": method})
    out.append({"kind": "tasks", "scan": [3, 2], "ns": 1, "title": "amesh", "method": "stack"})
    for nd in range(1, 5 if tier == "quick" else 6):
        out.append({"kind": "slicing", "nd": nd, "top": 4 if nd < 5 else 3})
    out.append({"kind": "shapes", "top": 4 if tier == "quick" else 6})
    return out


def run_shapes(shard, ctx):
    """Shapes cut in their last dimension to one and the same number of elements, as large as possible."""
    from spectrocrunch.process import h5merge

    dims = list(range(1, shard["top"] + 1))
    pool = [s for n in (1, 2, 3) for s in itertools.product(dims, repeat=n)]
    for shapes in itertools.product(pool, repeat=2):
        one_shapes(h5merge, list(shapes), ctx)
    small = [s for s in pool if len(s) == 2]
    for shapes in itertools.product(small, repeat=3):
        one_shapes(h5merge, list(shapes), ctx)


def one_shapes(h5merge, shapes, ctx):
    case = {"kind": "shapes", "shapes": [list(s) for s in shapes]}
    ctx.current = case
    ctx.tick(1, "shapes")
    lead = [int(np.prod(s[:-1], dtype=int)) for s in shapes]
    step = int(np.lcm.reduce(lead))
    sizes = [int(np.prod(s)) for s in shapes]
    if len(set(sizes)) == 1:
        want = shapes
    else:
        n = min(sizes) // step * step
        want = [s[:-1] + (n // m,) for s, m in zip(shapes, lead)] if n else None
    try:
        got = [tuple(int(i) for i in s) for s in h5merge.match_shapes(list(shapes))]
    except ValueError:
        got = None
    if got != want:
        ctx.fail("matching shapes", case, "%s become %s instead of %s" % (shapes, got, want))


RUN = {"shapes": run_shapes, "stack": run_stack, "tile": run_tile, "content": run_content, "tasks": run_tasks, "slicing": run_slicing}


def run_shard(shard, ctx):
    RUN[shard["kind"]](shard, ctx)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if case["kind"] == "shapes":
        from spectrocrunch.process import h5merge

        return one_shapes(h5merge, [tuple(s) for s in case["shapes"]], ctx)
    if case["kind"] == "slicing":
        return run_slicing({"nd": len(case["shape"]), "top": max(case["shape"])}, ctx)
    one_merge(ctx, case["mode"], tuple(case["scan"]), case["lens"], [tuple(x) for x in case["dets"]], case["fill"], case["arrangement"], tile=case["tile"] and tuple(case["tile"]), one=case["one"], case=case)
