"""C22: sets of XIA files read through every index in every combination of settings, against full-array maths."""

import itertools
import os
import shutil
import warnings

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "a stack of 2 maps of 2 lines of 3 spectra of 4 channels, 2-3 detectors, 4 counters; line, image and stack objects of every constructor; all index expressions with 9 (line), 6 (image), 4 (stack) kinds of index per dimension (integers, slices, reversed, empty, lists, masks), ellipsis and new axes; dead-time x summing x normalization x kinds read; all 28 detector selections; all histories of 2 of 30 setting changes and reads (3 of 16); saving of arrays and objects with every combination of settings, labels, statistics, counters; all file names from 10 radices, 13 labels, 5 map and 4 line numbers, and all groupings",
    "thorough": "one more kind of index per dimension, histories of 3 of 30 setting changes, of 4 of 16",
}
ASSUMPTIONS = [
    "when detectors are summed the index along the detectors is a slice, or a list when the other dimensions are not indexed with a list or integer (which moves the detector dimension)",
    "lists of different length (one of length 1) may be refused as index",
    "radices do not contain a counter name",
    "statistics and counters are indexed with the full channel dimension (counters with the full detector dimension)",
]
TECHNIQUE = "exhaustive enumeration of index expressions, settings and histories of setting changes on the real file readers, in lock step with a model that holds the full arrays"

NM, NR, NC, NCH, ND = 2, 2, 3, 4, 3
RADIX = "smp_a"
CTRS = ["arr_flux", "arr_zero", "xmap_x1_00", "xmap_x1_02", "zap_time"]


def worker_init():
    import spectrocrunch.io.xiaedf  # noqa
    import logging

    logging.getLogger("spectrocrunch").setLevel(logging.CRITICAL)
    logging.getLogger("fabio").setLevel(logging.CRITICAL)
    warnings.simplefilter("ignore")


# ---- data ----
def truth():
    idx = np.indices((NM, NR, NC, NCH, ND))
    data = (idx * np.array([5003, 1009, 211, 31, 7])[:, None, None, None, None, None]).sum(axis=0) + 11
    data = data.astype(np.int32)
    stats = np.zeros((NM, NR, NC, 6, ND), np.int32)
    n = np.arange(NM * NR * NC * ND).reshape((NM, NR, NC, ND))
    stats[..., 0, :] = np.arange(ND)
    stats[..., 1, :] = n * 3 + 1
    stats[..., 2, :] = 2000 + 100 * n
    stats[..., 3, :] = 1000 + 64 * n
    # not corrected: low counts, no output counts, more output than input
    stats[..., 2, :][n % 7 == 3] = 999
    stats[..., 3, :][n % 7 == 4] = 0
    stats[..., 3, :][n % 7 == 5] = 9000
    stats[..., 2, :][n % 11 == 6] = 1000
    stats[..., 4, :] = 500 + n
    stats[..., 5, :] = n % 50
    ctrs = np.zeros((NM, NR, NC, len(CTRS)), np.float32)
    p = np.arange(NM * NR * NC).reshape((NM, NR, NC))
    ctrs[..., 0] = p + 2
    ctrs[..., 1] = p % 3
    ctrs[..., 2] = 1000 + p
    ctrs[..., 3] = 2000 + p
    ctrs[..., 4] = 0.5 * p
    return data, stats, ctrs


def fname(path, radix, label, mapnum, linenum=None):
    s = os.path.join(path, "%s_%s_%04d_0000" % (radix, label, mapnum))
    return s + (".edf" if linenum is None else "_%04d.edf" % linenum)


def write(path, data, header=None):
    import fabio

    fabio.edfimage.EdfImage(data=np.ascontiguousarray(data), header=header or {}).write(path)


def build(path, radix=RADIX, decoys=True, missing=()):
    """Files written with fabio: the reference"""
    os.makedirs(path)
    data, stats, ctrs = truth()
    for m in range(NM):
        for r in range(NR):
            if (m, r) in missing:
                continue
            for d in range(ND):
                write(fname(path, radix, "xia%02d" % d, m, r), data[m, r, :, :, d], {"xdata": 1, "xcorr": 0, "xnb": 1, "xdet": d})
            st = np.swapaxes(stats[m, r], 1, 2).reshape((NC, ND * 6))
            write(fname(path, radix, "xiast", m, r), st, {"xdata": 3, "xcorr": 0, "xnb": ND, "xdet": " ".join(map(str, range(ND)))})
        for i, c in enumerate(CTRS):
            write(fname(path, radix, c, m), ctrs[m, ..., i])
    if decoys:
        # other radices and maps of the same directory
        one = np.ones((NC, NCH), np.int32)
        write(fname(path, radix + "_b", "xia00", 0, 0), one)
        write(fname(path, radix + "2", "xia00", 1, 0), one)
        write(fname(path, "x_" + radix, "xia00", 1, 0), one)
        write(fname(path, radix + "_b", "arr_flux", 0), one)
        with open(os.path.join(path, radix + "_xmap_readme.txt"), "w") as f:
            f.write("x")
    return path


class Model:
    """Settings and full arrays"""

    def __init__(self, level, maps=None, kind="data"):
        data, stats, ctrs = truth()
        self.labels = ["xia%02d" % i for i in range(ND)]
        self.level = level
        if level <= 1:
            data, stats, ctrs = data[1], stats[1], ctrs[1]
        if level == 0:
            data, stats, ctrs = data[1], stats[1], ctrs[1]
        self.data, self.stats, self.ctrs = data, stats, ctrs
        self.kinds = ("data",)
        self.icrocr = True
        self.dt = False
        self.sum = False
        self.norm = None
        self.func = None
        self.local = None  # of one image of a stack
        self.exclude = []
        self.include = []

    @property
    def ndim(self):
        return self.data.ndim

    def selected(self):
        def num(x):
            return int(x[3:]) if isinstance(x, str) and x.startswith("xia") else int(x)

        ex, inc = [num(i) for i in self.exclude], [num(i) for i in self.include]
        return [i for i in range(ND) if i not in ex and (not inc or i in inc)]

    def ctrselected(self):
        sel = self.selected()
        out = []
        for i, c in enumerate(CTRS):
            if c.startswith("xmap") and int(c[-2:]) not in sel:
                continue
            out.append(i)
        return out

    def read(self, kind, index, icrocr=None):
        """None: not defined"""
        index = full_index(index, self.ndim)
        sel = self.selected()
        if kind == "data":
            D = self.data[..., sel]
            if self.dt:
                icr = self.stats[..., 2, :][..., sel].astype(float)
                ocr = self.stats[..., 3, :][..., sel].astype(float)
                cor = np.ones(icr.shape)
                good = (ocr != 0) & (icr >= 1000)
                cor[good] = np.maximum(icr[good] / ocr[good], 1)
                D = D * cor[..., None, :]
            if self.norm is not None and self.level >= 1:
                if self.norm in CTRS:
                    n = self.ctrs[..., CTRS.index(self.norm)].astype(float)
                elif isinstance(self.norm, str):
                    n = np.ones(self.ctrs.shape[:-1])
                else:
                    n = np.full(self.ctrs.shape[:-1], float(self.norm))
                if self.func is not None:
                    n = self.func(n)
                if self.local is not None:
                    n[1] = self.local(n[1])
                n = np.where(n == 0, 1, n)
                D = D / n[..., None, None]
            if self.sum:
                last = index[-1]
                D = D[..., last]
                if D.ndim != self.ndim:
                    return None
                D = D.sum(axis=-1, keepdims=True)
                index = index[:-1] + (slice(None),)
            return D[index]
        k = dims(index)
        if kind == "stats":
            S = self.stats[..., sel]
            if self.icrocr if icrocr is None else icrocr:
                S = S[..., [2, 3], :]
            return S[replace(index, self.ndim, [-2])]
        if kind == "counters":
            C = self.ctrs[..., self.ctrselected()][..., None]
            return C[replace(index, self.ndim, [-2, -1])]


def dims(index):
    return [i for i, x in enumerate(index) if x is not None]


def full_index(index, ndim):
    """Index with every dimension explicit"""
    if not isinstance(index, tuple):
        index = (index,)
    n = sum(x is not None and x is not Ellipsis for x in index)
    if any(x is Ellipsis for x in index):
        i = [x is Ellipsis for x in index].index(True)
        return index[:i] + (slice(None),) * (ndim - n) + index[i + 1 :]
    return index + (slice(None),) * (ndim - n)


def replace(index, ndim, axes):
    index = list(index)
    pos = dims(index)
    for a in axes:
        index[pos[a]] = slice(None)
    return tuple(index)


# ---- indices ----
TOK = {
    9: [":", "-1", "1:", "::-1", "0:0", "l1", "rev", "mask", "0"],
    6: [":", "-1", "1:", "l1", "rev", "mask"],
    5: [":", "-1", "1:", "0:0", "rev"],
    4: [":", "-1", "1:", "rev"],
    10: [":", "-1", "1:", "::-1", "0:0", "l1", "rev", "mask", "0", "-2:"],
    7: [":", "-1", "1:", "l1", "rev", "mask", "::-1"],
}


def tok(t, n):
    if t == ":":
        return slice(None)
    if t in ("-1", "0"):
        return int(t)
    if t == "1:":
        return slice(1, None)
    if t == "-2:":
        return slice(-2, None)
    if t == "::-1":
        return slice(None, None, -1)
    if t == "0:0":
        return slice(0, 0)
    if t == "l1":
        return [n - 1]
    if t == "rev":
        return [n - 1, 0]
    if t == "mask":
        return [i in (0, n - 1) for i in range(n)]
    if t == "...":
        return Ellipsis
    if t == "N":
        return None
    raise ValueError(t)


def decode(toks, shape):
    out, k = [], 0
    n = sum(t not in ("...", "N") for t in toks)
    for t in toks:
        if t == "...":
            out.append(Ellipsis)
            k += len(shape) - n
        elif t == "N":
            out.append(None)
        else:
            out.append(tok(t, shape[k]))
            k += 1
    return tuple(out) if len(out) != 1 else out[0]


def variants(toks, special):
    yield toks
    if not special:
        return
    # trailing full dimensions are omitted, full dimensions are an ellipsis, new axes
    k = len(toks)
    while k and toks[k - 1] == ":":
        k -= 1
    if 0 < k < len(toks):
        yield toks[:k]
        yield toks[:k] + ("...",)
    i = 0
    while i < len(toks) and toks[i] == ":":
        i += 1
    if 0 < i < len(toks):
        yield ("...",) + toks[i:]
    if special > 1:
        for i in range(len(toks) + 1):
            yield toks[:i] + ("N",) + toks[i:]


def indices(level, tier):
    n = {"quick": {0: 9, 1: 6, 2: 4}, "thorough": {0: 10, 1: 7, 2: 5}}[tier][level]
    special = 2 if level == 0 else 1
    for toks in itertools.product(TOK[n], repeat=level + 3):
        yield from variants(toks, special)


# ---- objects ----
def make(ctor, path, missing=False):
    from spectrocrunch.io import xiaedf
    from glob import glob

    level, name = ctor
    if name == "number":
        return [lambda: xiaedf.xialine_number(path, RADIX, 1, 1), lambda: xiaedf.xiaimage_number(path, RADIX, 1), lambda: xiaedf.xiastack_radix(path, RADIX)][level]()
    if name == "mapnumbers":
        return xiaedf.xiastack_mapnumbers([path], [RADIX], [[0, 1]])
    if name == "linenumbers":
        return xiaedf.xiaimage_linenumbers(path, RADIX, 1, list(range(NR)))
    if name == "files":
        if level == 0:
            return xiaedf.xialine_files(sorted(glob(os.path.join(path, RADIX + "_xia??_0001_0000_0001.edf"))))
        files = [f for f in glob(os.path.join(path, RADIX + "_*.edf")) if not os.path.basename(f).startswith(RADIX + "_b")]
        files = [f for f in files if level == 2 or "_0001_0000" in f]
        files = sorted(files)[::-1]
        return [xiaedf.xiaimage_files, xiaedf.xiastack_files][level - 1](files)
    raise ValueError(name)


CTORS = [(0, "number"), (0, "files"), (1, "number"), (1, "files"), (1, "linenumbers"), (2, "number"), (2, "files"), (2, "mapnumbers")]
KINDS = [("data",), ("stats",), ("counters",), ("data", "stats"), ("data", "stats", "counters")]
SETKIND = {
    ("data",): "onlydata",
    ("stats",): "onlystats",
    ("counters",): "onlycounters",
    ("data", "stats"): "dataandstats",
    ("data", "stats", "counters"): "dataall",
}


def same(a, b):
    a = np.asarray(a)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    if not np.allclose(a, b, rtol=1e-6, atol=1e-9):
        return "values differ"
    if a.dtype.kind != b.dtype.kind and b.any():
        return "type %s instead of %s" % (a.dtype, b.dtype)


def compare(got, expected, kinds):
    if len(kinds) == 1:
        got = (got,)
    elif not isinstance(got, tuple) or len(got) != len(kinds):
        return "not a tuple of %d arrays" % len(kinds)
    for k, g, e in zip(kinds, got, expected):
        if e is None:
            continue
        msg = same(g, e)
        if msg:
            return "%s: %s" % (k, msg)


def read(obj, model, index, kinds):
    """(expected or None, difference or None)"""
    try:
        expected = [model.read(k, index) for k in kinds]
    except IndexError:
        return None, None
    if any(e is None for e in expected):
        return None, None
    try:
        got = obj[index]
    except Exception as e:
        return expected, "%s: %s" % (type(e).__name__, str(e)[:100])
    return expected, compare(got, expected, kinds)


def configs(level):
    norms = [None, "arr_zero"] if level else [None]
    for dt in (False, True):
        for sm in (False, True):
            for norm in norms:
                yield dt, sm, norm


def apply_config(obj, model, dt, sm, norm):
    obj.dtcor(dt)
    obj.detectorsum(sm)
    obj.globalnorm(norm)
    model.dt, model.sum, model.norm, model.func = dt, sm, norm, None


def shard_index(shard, ctx, case=None):
    ctor, cfg = tuple(shard["ctor"]), shard["cfg"]
    path = os.path.join(ctx.scratch, "x22")
    if not os.path.exists(path):
        build(path)
    obj = make(ctor, path)
    model = Model(ctor[0])
    apply_config(obj, model, *cfg)
    kinds = [KINDS[4], KINDS[0]] if ctor[0] else [KINDS[3], KINDS[0]]
    if case:
        todo = [(tuple(case["index"]), tuple(case["kinds"]))]
    else:
        todo = ((t, k) for i, t in enumerate(indices(ctor[0], ctx.tier)) if i % shard["n"] == shard["i"] for k in kinds)
    for toks, kind in todo:
        if "counters" in kind and ctor[0] == 0:
            continue
        index = decode(toks, model.data.shape)
        full = full_index(index, model.ndim)
        lists = [sum(i) if isinstance(i[0], bool) else len(i) for i in full if isinstance(i, list)]
        if len(set(lists)) > 1:
            continue
        if cfg[1] and not (isinstance(full[-1], slice) or isinstance(full[-1], list) and len(lists) == 1 and not any(isinstance(i, int) for i in full)):
            continue
        ctx.tick()
        ctx.current = {"shard": shard, "index": toks, "kinds": kind}
        getattr(obj, SETKIND[kind])()
        expected, diff = read(obj, model, index, kind)
        if expected is None:
            continue
        ctx.trans()
        ctx.trace()
        ctx.state((ctor, tuple(cfg), toks, kind))
        if diff:
            ctx.fail(
                "index %s dt=%d sum=%d norm=%s %s: %s" % (["line", "image", "stack"][ctor[0]], cfg[0], cfg[1], cfg[2], "+".join(kind), diff.split(":")[0]),
                ctx.current,
                "reading %s with index %s: %s" % ("+".join(kind), index, diff),
            )


# ---- selections ----
def selections():
    opts = [[], [0], ["xia01"], ["02"], [0, "02"], [0, 1, 2], [5]]
    for ex in opts:
        for inc in opts:
            yield ex, inc


def shard_select(shard, ctx, case=None):
    path = os.path.join(ctx.scratch, "x22")
    if not os.path.exists(path):
        build(path)
    ctor = tuple(shard["ctor"])
    for ex, inc in selections() if not case else [(case["exclude"], case["include"])]:
        for cfg in configs(ctor[0]):
            ctx.tick()
            obj, model = make(ctor, path), Model(ctor[0])
            obj.exclude_detectors, obj.include_detectors = list(ex), list(inc)
            model.exclude, model.include = ex, inc
            apply_config(obj, model, *cfg)
            sel = model.selected()
            ctx.current = {"shard": shard, "exclude": ex, "include": inc}
            bad = []
            try:
                if list(obj.xialabels_used) != [model.labels[i] for i in sel]:
                    bad.append("selected detectors: %s" % obj.xialabels_used)
                if list(obj.xialabels) != model.labels:
                    bad.append("detectors: %s" % obj.xialabels)
                if sel:
                    if tuple(obj.dshape) != model.data.shape[:-1] + (len(sel),):
                        bad.append("data shape %s" % (obj.dshape,))
                    if tuple(obj.sshape) != model.stats.shape[:-2] + (2, len(sel)):
                        bad.append("stats shape %s" % (obj.sshape,))
                    bad += observe(obj, model)
                    if ctor[0]:
                        obj.onlycounters()
                        for index in [slice(None), 0, (slice(None), slice(1, None)), (slice(None), [1, 0]), (Ellipsis, 0), (Ellipsis, 0, slice(None))]:
                            _, diff = read(obj, model, index, ("counters",))
                            if diff:
                                bad.append("counters with index %s: %s" % (index, diff))
            except Exception as e:
                bad.append("%s: %s" % (type(e).__name__, str(e)[:100]))
            ctx.trans()
            ctx.trace()
            ctx.state((ctor, repr(ex), repr(inc), cfg))
            for b in bad:
                ctx.fail("selection %s: %s" % (["line", "image", "stack"][ctor[0]], b.split(":")[0]), ctx.current, "exclude %s include %s: %s" % (ex, inc, b))
                break


# ---- histories ----
def half(x):
    return x / 2


OPS = [
    "onlydata", "onlystats", "onlycounters", "dataandstats", "dataall", "icrocr0", "icrocr1", "dt0", "dt1", "sum0", "sum1",
    "norm arr_flux", "norm None", "norm 3", "normf arr_flux", "norm nothing", "local arr_flux", "excl", "excl0", "incl", "incl0",
    "read", "read[1]", "data", "stats", "allstats", "counters", "iterate", "iterbreak", "bad",
]
CORE = ["onlydata", "onlystats", "dataandstats", "dataall", "icrocr0", "dt1", "dt0", "sum1", "norm arr_flux", "norm None", "excl", "read", "data", "allstats", "iterbreak", "bad"]


def step(obj, model, op):
    """Apply, returns differences"""
    if op.startswith("only") or op.startswith("dataa"):
        getattr(obj, op)()
        model.kinds = {v: k for k, v in SETKIND.items()}[op]
    elif op[:6] == "icrocr":
        obj.onlyicrocr(op[-1] == "1")
        model.icrocr = op[-1] == "1"
    elif op[:2] == "dt":
        obj.dtcor(op[-1] == "1")
        model.dt = op[-1] == "1"
    elif op in ("sum0", "sum1"):
        obj.detectorsum(op[-1] == "1")
        model.sum = op[-1] == "1"
    elif op[:4] in ("norm", "loca"):
        how, ctr = op.split(" ")
        ctr = {"None": None, "3": 3}.get(ctr, ctr)
        model.norm, model.func = ctr, None
        if how == "norm":
            obj.norm(ctr)
        elif how == "local" and model.level == 2:
            model.local = half
            obj.getitems()[1].localnorm(ctr, func=half)
        else:
            model.func = half
            (obj.globalnorm if how == "normf" else obj.localnorm)(ctr, func=half)
    elif op[:4] == "excl":
        model.exclude = [] if op[-1] == "0" else [0]
        obj.exclude_detectors = list(model.exclude)
    elif op[:4] == "incl":
        model.include = [] if op[-1] == "0" else [0, "02"]
        obj.include_detectors = list(model.include)
    elif op in ("read", "read[1]"):
        index = slice(None) if op == "read" else (slice(1, None),)
        if len(model.kinds) > 1 or model.kinds != ("counters",) or model.level:
            _, diff = read(obj, model, index, model.kinds)
            return [diff] if diff else []
    elif op in ("data", "stats", "allstats", "counters"):
        return observe(obj, model, [op])
    elif op in ("iterate", "iterbreak"):
        sel = model.selected()
        saved = model.exclude, model.include
        bad = []
        gen = obj.iter_detectors()
        for i, det in enumerate(gen):
            if i >= len(sel) or det != "%02d" % sel[i]:
                bad.append("iterating the detectors: %s" % det)
                break
            model.exclude, model.include = [], [sel[i]]
            bad += observe(obj, model, ["data", "stats"])
            if op == "iterbreak":
                break
        else:
            if i + 1 != len(sel):
                bad.append("iterating the detectors: too few")
        gen.close()
        model.exclude, model.include = saved
        return bad
    elif op == "bad":
        kinds = model.kinds
        try:
            obj[99]
        except Exception:
            pass
        try:
            with obj.env_indexing_onlystats():
                obj[99]
        except Exception:
            pass
    return []


def observe(obj, model, what=("data", "stats", "allstats", "counters")):
    bad = []
    for w in what:
        if w == "counters" and model.level == 0:
            continue
        exp = model.read("stats" if w == "allstats" else w, slice(None), icrocr=False if w == "allstats" else None)
        try:
            got = getattr(obj, w)
        except Exception as e:
            bad.append("%s: %s: %s" % (w, type(e).__name__, str(e)[:100]))
            continue
        diff = same(got, exp)
        if diff:
            bad.append("%s: %s" % (w, diff))
    return bad


def run_history(ctor, path, ops):
    obj, model = make(ctor, path), Model(ctor[0])
    for i, op in enumerate(ops):
        if ctor[0] == 0 and op in ("onlycounters", "dataall", "counters"):
            return model, None
        if model.local is not None and op[:4] in ("norm", "loca"):
            return model, None  # whether the normalization of one image stays is not defined
        bad = step(obj, model, op)
        if bad:
            return model, "after %s, %s: %s" % (list(ops[:i]), op, bad[0])
    # everything which is visible
    _, diff = read(obj, model, slice(None), model.kinds)
    if not diff:
        diff = (observe(obj, model) or [None])[0]
    if not diff:
        _, diff = read(obj, model, (Ellipsis, slice(1, None), slice(None)), model.kinds)
    if not diff:
        sel = model.selected()
        if tuple(obj.dshape) != model.data.shape[:-1] + (len(sel),):
            diff = "data shape %s" % (obj.dshape,)
        elif tuple(obj.sshape) != model.stats.shape[:-2] + (2 if model.icrocr else 6, len(sel)):
            diff = "stats shape %s" % (obj.sshape,)
    return model, diff and "after %s: %s" % (list(ops), diff)


def shard_history(shard, ctx, case=None):
    path = os.path.join(ctx.scratch, "x22")
    if not os.path.exists(path):
        build(path)
    ctor = tuple(shard["ctor"])
    ops = CORE if shard["core"] else OPS
    todo = [case["ops"]] if case else ((tuple(shard["first"]) + h) for h in itertools.product(ops, repeat=shard["depth"] - len(shard["first"])))
    for h in todo:
        ctx.tick()
        ctx.current = {"shard": shard, "ops": h}
        try:
            model, diff = run_history(ctor, path, h)
        except Exception as e:
            model, diff = None, "%s: %s" % (type(e).__name__, str(e)[:100])
        ctx.trans(len(h))
        ctx.trace()
        if model is not None:
            ctx.state((ctor, model.kinds, model.icrocr, model.dt, model.sum, repr(model.norm), model.func is None, model.local is None, repr(model.exclude), repr(model.include)))
        if diff:
            ctx.fail("history %s %s" % (["line", "image", "stack"][ctor[0]], " ".join(h)), ctx.current, diff)


# ---- saving ----
def shard_save(shard, ctx, case=None):
    from spectrocrunch.io import xiaedf

    path = os.path.join(ctx.scratch, "x22")
    if not os.path.exists(path):
        build(path)
    level = shard["level"]
    combos = itertools.product(configs(level), ("array", "object"), (False, True), (None, False, True), (None, False, True), ([], [1], [0]))
    for n, (cfg, how, labels, stats, ctrs, exclude) in enumerate(combos):
        if case and case["n"] != n:
            continue
        if (ctrs is not None and not level) or (stats and cfg[1]) or (how == "array" and False in (stats, ctrs)):
            continue
        ctx.tick()
        ctx.current = {"shard": shard, "n": n}
        dest = os.path.join(ctx.scratch, "x22dest")
        if os.path.exists(dest):
            shutil.rmtree(dest)
        src, model = make((level, "number"), path), Model(level)
        apply_config(src, model, *cfg)
        src.exclude_detectors, model.exclude = list(exclude), exclude
        sel = model.selected()
        data = model.read("data", slice(None))
        nd = data.shape[-1]
        names = (["xiaS1"] if cfg[1] else [model.labels[i] for i in sel]) if labels else None
        kw = {}
        if names:
            kw["xialabels"] = names
        if how == "object":
            if stats is not None:
                kw["stats"] = stats
            if ctrs is not None:
                kw["ctrs"] = ctrs
        else:
            if stats:
                kw["stats"] = model.read("stats", slice(None), icrocr=False)
            if ctrs:
                kw["ctrs"] = model.read("counters", slice(None))[..., 0]
                kw["ctrnames"] = [CTRS[i] for i in model.ctrselected()]
        bad = None
        try:
            d = [lambda: xiaedf.xialine_number(dest, "out", 0, 0), lambda: xiaedf.xiaimage_number(dest, "out", 0), lambda: xiaedf.xiastack_radix(dest, "out")][level]()
            d.save(src if how == "object" else data, **kw)
            objs = [("itself", d)]
            objs.append(("fresh", [lambda: xiaedf.xialine_number(dest, "out", 0, 0), lambda: xiaedf.xiaimage_number(dest, "out", 0), lambda: xiaedf.xiastack_mapnumbers([dest], ["out"], [list(range(NM))])][level]()))
            for who, o in objs:
                msg = same(o.data, data)
                if msg:
                    bad = "%s data: %s" % (who, msg)
                if stats and not bad:
                    if labels or not exclude:
                        msg = same(o.allstats, model.read("stats", slice(None), icrocr=False))
                        bad = msg and "%s stats: %s" % (who, msg)
                elif not bad and o.has_stats:
                    bad = "%s has statistics" % who
                if level and not ctrs and not bad and o.counternames():
                    bad = "%s has counters" % who
                if ctrs and not bad:
                    msg = same(o.counters, model.read("counters", slice(None)))
                    bad = msg and "%s counters: %s" % (who, msg)
                exp = names or ["xia%02d" % i for i in range(nd)]
                if not bad and list(o.xialabels) != exp:
                    bad = "%s labels: %s" % (who, o.xialabels)
                if bad:
                    break
            if not bad and src.exclude_detectors != exclude:
                bad = "source: settings changed"
            if not bad:
                bad = (observe(src, model) or [None])[0]
        except Exception as e:
            bad = "%s: %s" % (type(e).__name__, str(e)[:200])
        ctx.trans()
        ctx.trace()
        ctx.state(("save", level, n))
        if bad:
            desc = "%s of %s dt=%d sum=%d norm=%s labels=%d stats=%s counters=%s exclude=%s" % (how, ["line", "image", "stack"][level], cfg[0], cfg[1], cfg[2], labels, stats, ctrs, exclude)
            ctx.fail("save " + desc + ": " + bad.split(":")[0], ctx.current, "saving the " + desc + ": " + bad)


def shard_overwrite(shard, ctx, case=None):
    """Saving over existing files: kept, or replaced with overwrite"""
    from spectrocrunch.io import xiaedf

    for level in (0, 1, 2):
        for over in (False, True):
            for fresh in (False, True):
                dest = os.path.join(ctx.scratch, "x22over")
                if os.path.exists(dest):
                    shutil.rmtree(dest)
                mk = [lambda: xiaedf.xialine_number(dest, "out", 0, 0), lambda: xiaedf.xiaimage_number(dest, "out", 0), lambda: xiaedf.xiastack_radix(dest, "out")][level]
                model = Model(level)
                a = model.data
                b = a + 1
                ctx.tick()
                ctx.trace()
                ctx.trans(2)
                ctx.state(("over", level, over, fresh))
                ctx.current = {"shard": shard}
                try:
                    o = mk()
                    o.save(a)
                    if fresh:
                        o = mk()
                    o.overwrite(over)
                    o.save(b)
                    bad = same(mk().data, b if over else a) or same(o.data, b if over else a)
                except Exception as e:
                    bad = "%s: %s" % (type(e).__name__, str(e)[:200])
                if bad:
                    ctx.fail("overwrite=%s %s fresh=%s" % (over, ["line", "image", "stack"][level], fresh), ctx.current, bad)


def shard_missing(shard, ctx, case=None):
    """Maps which were stopped: lines without all files are not part of it, maps with another number of lines neither"""
    partial = ("partial", 1, 1)
    for missing in [(), ((1, 1),), ((0, 1), (1, 1)), ((0, 1),), (partial,)]:
        path = os.path.join(ctx.scratch, "x22miss")
        if os.path.exists(path):
            shutil.rmtree(path)
        build(path, missing=missing)
        if missing == (partial,):
            os.remove(fname(path, RADIX, "xia%02d" % (ND - 1), 1, 1))
        lines = [[r for r in range(NR) if (m, r) not in missing and ("partial", m, r) not in missing] for m in range(NM)]
        for norm in (None, "arr_flux", 2, "arr_none"):
            for dt in (False, True):
                for level in (1, 2):
                    obj, model = make((level, "number"), path), Model(level)
                    apply_config(obj, model, dt, False, norm)
                    # what is there
                    if level == 1:
                        cut = (slice(0, len(lines[1])),)
                    else:
                        nmaps = 1 if len(lines[0]) != len(lines[1]) else 2
                        cut = (slice(0, nmaps), slice(0, len(lines[0])))
                    model.data, model.stats, model.ctrs = model.data[cut], model.stats[cut], model.ctrs[cut]
                    for index in (slice(None), -1, (Ellipsis, 1, slice(None), slice(None)), slice(None, None, -1), ([0], [-1]), (slice(None), [0])):
                        for w in ("data", "stats"):
                            ctx.tick()
                            ctx.trace()
                            ctx.trans()
                            ctx.state(("missing", repr(missing), norm, dt, level, repr(index), w))
                            ctx.current = {"shard": shard}
                            getattr(obj, "only" + w)()
                            _, bad = read(obj, model, index, (w,))
                            if bad:
                                ctx.fail("missing lines %s %s norm=%s" % (["", "image", "stack"][level], w, norm), ctx.current, "%s dt=%s index %s: %s" % (missing, dt, index, bad))
                                break


# ---- names ----
RADICES = ["a", "a_b", "sample_0001", "a_0001_0000", "x.edf", "xia", "a_xia00_0001", "1", "a b", "A-1[2]"]
LABELS = ["xia00", "xia01", "xia99", "xiaS0", "xiast", "arr_1", "arr_flux", "xmap_x1_00", "xmap_x1c_01", "xmap_x1_sum", "PUZ_xmap_x1_00", "PUZ_arr_iodet", "zap_p1", "mosca"]
BASE = {
    "xia00": ("xia", "00"), "xia01": ("xia", "01"), "xia99": ("xia", "99"), "xiaS0": ("xia", "S0"), "xiast": ("xia", "st"), "arr_1": ("arr_1", ""), "arr_flux": ("arr_flux", ""),
    "xmap_x1_00": ("xmap_x1", "00"), "xmap_x1c_01": ("xmap_x1c", "01"), "xmap_x1_sum": ("xmap_x1", "sum"), "PUZ_xmap_x1_00": ("PUZ_xmap_x1", "00"), "PUZ_arr_iodet": ("PUZ_arr_iodet", ""), "zap_p1": ("zap_p1", ""), "mosca": ("mosca", ""),
}


def shard_names(shard, ctx, case=None):
    from spectrocrunch.io import xiaedf

    if case:
        todo = [case["name"]]
    else:
        todo = itertools.product(RADICES, (0, 1, 12, 9999, 10000), (-1, 0, 1, 9999, 12345), LABELS)
    for radix, mapnum, linenum, label in todo:
        if (linenum == -1) == label.startswith("xia"):
            continue
        if label == "mosca":
            continue  # a name needs more than the counter family
        ctx.tick()
        ctx.trans()
        ctx.trace()
        ctx.state((radix, mapnum, linenum, label))
        ctx.current = {"shard": shard, "name": (radix, mapnum, linenum, label)}
        f = xiaedf.xiafilename(radix, mapnum, linenum, label)
        for prefix in ("", "/tmp/x_xia00_0000/"):
            try:
                o = xiaedf.xianameparser.parse(prefix + f)
                got = tuple(o)
            except Exception as e:
                got = "%s: %s" % (type(e).__name__, e)
            exp = (radix, mapnum, linenum, label) + BASE[label]
            if got != exp:
                ctx.fail("name label %s" % label, ctx.current, "%s is parsed as %s" % (f, got))
        # the formats give the same names
        fmts = [xiaedf.xiaformat_line(radix, mapnum, linenum).format(label), xiaedf.xiaformat_map(radix, mapnum).format(label, "%04d" % linenum), xiaedf.xiaformat_radix(radix).format(label, "%04d" % mapnum, "%04d" % linenum)]
        if linenum == -1:
            fmts = [xiaedf.xiaformat_ctr(radix, mapnum).format(label), xiaedf.xiaformat_radixctr(radix).format(label, "%04d" % mapnum)]
        for g in fmts:
            if g != f:
                ctx.fail("name formats", ctx.current, "%s instead of %s" % (g, f))


GROUPFILES = [("a", 0, 0, "xia00"), ("a", 0, 0, "xiast"), ("a", 0, 1, "xia00"), ("a", 2, -1, "arr_1"), ("a", 2, 0, "xia01"), ("b", 0, -1, "xmap_x1_00"), ("b", 10, 0, "xia00"), ("b", 10, 10, "xia00")]


def shard_groups(shard, ctx, case=None):
    """Every subset of files, as list in two orders and in a directory"""
    from spectrocrunch.io import xiaedf

    n = len(GROUPFILES)
    for mask in range(1 << n) if not case else [case["mask"]]:
        ctx.tick()
        sub = [GROUPFILES[i] for i in range(n) if mask >> i & 1]
        ctx.current = {"shard": shard, "mask": mask}
        names = {t: os.path.join("/p", xiaedf.xiafilename(*t)) for t in sub}
        exp = {}
        for t in sorted(sub):
            exp.setdefault(t[0], {}).setdefault(t[1], {}).setdefault(t[2], []).append(names[t])
        ctx.trans(5)
        ctx.trace()
        ctx.state(("group", mask))
        for order in (1, -1):
            files = [names[t] for t in sub][::order]

            def tolist(d):
                return [(k, tolist(v)) for k, v in d.items()] if isinstance(d, dict) else list(d)

            def check(what, got, exp):
                if tolist(got) != tolist(exp):
                    ctx.fail("grouping %s" % what, ctx.current, "%s of %s: %s instead of %s" % (what, sub, tolist(got), tolist(exp)))

            try:
                check("xiagroup", xiaedf.xiagroup(list(files)), exp)
                check("xiagroupmaps2", xiaedf.xiagroupmaps2(list(files)), {"%s_%s" % (r, m): v for r in exp for m, v in exp[r].items()})
                for r in exp:
                    fr = [names[t] for t in sub if t[0] == r][::order]
                    check("xiagroupmaps", xiaedf.xiagroupmaps(list(fr)), exp[r])
                    for m in exp[r]:
                        fm = [names[t] for t in sub if t[:2] == (r, m)][::order]
                        check("xiagrouplines", xiaedf.xiagrouplines(list(fm)), exp[r][m])
                det = {}
                for t in sorted(sub):
                    base, d = BASE[t[3]]
                    det.setdefault(d, {}).setdefault(base, []).append(names[t])
                got = xiaedf.xiagroupdetectors(list(files))
                if {d: {b: sorted(f) for b, f in v.items()} for d, v in got.items()} != {d: {b: sorted(f) for b, f in v.items()} for d, v in det.items()}:
                    ctx.fail("grouping detectors", ctx.current, "xiagroupdetectors of %s: %s" % (sub, tolist(got)))
                cnt = sum(t[3].startswith("xia") for t in sub)
                if xiaedf.xiagroupnxiafiles(list(files)) != cnt or xiaedf.xiagroupnxiafiles(exp) != cnt:
                    ctx.fail("counting files", ctx.current, "xiagroupnxiafiles of %s" % sub)
            except Exception as e:
                ctx.fail("grouping raises", ctx.current, "%s: %s: %s" % (sub, type(e).__name__, e))


def shard_search(shard, ctx, case=None):
    """Search in a directory with every radix, map, line and label"""
    from spectrocrunch.io import xiaedf

    for dname in ("plain", "with[1] x", "st*r"):
        path = os.path.join(ctx.scratch, "search " + dname)
        if not os.path.exists(path):
            os.makedirs(path)
        files = {}
        for r, m, ln, lab in itertools.product(("a", "a_b", "b", "c[1]", "a_0001_0000"), (0, 1, 10000), (-1, 0, 1), ("xia00", "xiast", "arr_1", "xmap_x1_00")):
            if (ln == -1) == lab.startswith("xia"):
                continue
            f = os.path.join(path, xiaedf.xiafilename(r, m, ln, lab))
            open(f, "w").close()
            files[r, m, ln, lab] = f
        for x in ("readme.txt", "a_other.edf", "a_foo_0000_0000.edf"):
            open(os.path.join(path, x), "w").close()
        for r, m, ln, lab, ctrs, only, clab in itertools.product((None, "a", "a_b", "b", "c[1]", "a_0001_0000", "none"), (None, 0, 1, 10000, 7), (None, 0, 1), (None, "xia00", "xiast"), (True, False), (False, True), (None, "arr_1")):
            ctx.tick()
            ctx.trans()
            ctx.trace()
            ctx.state((dname, r, m, ln, lab, ctrs, only, clab))
            ctx.current = {"shard": shard}
            exp = []
            for t, f in files.items():
                if (r is not None and t[0] != r) or (m is not None and t[1] != m):
                    continue
                if t[2] == -1:
                    if (ctrs or only) and (clab is None or t[3] == clab):
                        exp.append((t, f))
                elif not only and (ln is None or t[2] == ln) and (lab is None or t[3] == lab):
                    exp.append((t, f))
            exp = [f for t, f in sorted(exp)]
            try:
                got = xiaedf.xiasearch(path, radix=r, mapnum=m, linenum=ln, label=lab, ctrs=ctrs, onlyctrs=only, ctrlabel=clab)
            except Exception as e:
                ctx.fail("search raises", ctx.current, "%s: %s: %s" % ((r, m, ln, lab, ctrs, only, clab), type(e).__name__, e))
                continue
            if list(got) != exp:
                ctx.fail("search %s radix=%s" % (dname, r), ctx.current, "xiasearch%s: %s instead of %s" % ((r, m, ln, lab, ctrs, only, clab), [os.path.basename(f) for f in got][:6], [os.path.basename(f) for f in exp][:6]))


RUN = {
    "index": shard_index, "select": shard_select, "history": shard_history, "save": shard_save, "overwrite": shard_overwrite,
    "missing": shard_missing, "names": shard_names, "groups": shard_groups, "search": shard_search,
}


def shards(tier):
    for level, n in ((0, 2), (1, 6), (2, 8)):
        ctors = [c for c in CTORS if c[0] == level][:1]
        for ctor in ctors:
            for cfg in configs(level):
                for i in range(n if tier == "quick" else 4 * n):
                    yield {"what": "index", "ctor": ctor, "cfg": cfg, "i": i, "n": n if tier == "quick" else 4 * n}
    for ctor in CTORS:
        yield {"what": "select", "ctor": ctor}
    deep = tier != "quick"
    for ctor in CTORS:
        if deep or ctor in ((0, "number"), (1, "number"), (2, "number")):
            for op in OPS:
                yield {"what": "history", "ctor": ctor, "core": False, "first": [op], "depth": 3 if deep and ctor[0] < 2 else 2}
        else:
            yield {"what": "history", "ctor": ctor, "core": True, "first": [], "depth": 2}
    for op in CORE:
        yield {"what": "history", "ctor": (1, "number"), "core": True, "first": [op], "depth": 4 if deep else 3}
    for level in (0, 1, 2):
        yield {"what": "save", "level": level}
    for what in ("overwrite", "missing", "names", "groups", "search"):
        yield {"what": what}


def run_shard(shard, ctx):
    RUN[shard["what"]](shard, ctx)


def replay(case, ctx):
    RUN[case["shard"]["what"]](case["shard"], ctx, case)
