"""C11: every index expression over small stacks, against the fully loaded array."""

import itertools
import os
import shutil

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "shapes (3,), (2,3), (1,2), (2,1,3), (3,2,2) and every stack axis; per dimension up to 15 indices (integers, slices with all sign combinations of start, stop and step, integer lists with duplicates, empty lists, ranges, boolean lists), all combinations, newaxis at every place (also twice), ellipsis at every place, trailing dimensions omitted; writing scalars, arrays and broadcast arrays with 7 methods; HDF5 grids of 2 and 3 signals of shape (2,3), every stack axis",
    "thorough": "also shapes (2,2,2,2), (3,3,3), (2,3,2) with two newaxes, all indices; HDF5 grids with 3-dimensional signals",
}
ASSUMPTIONS = [
    "an index expression that numpy refuses has to be refused; lists of different length (one of length 1) may be refused",
    "the type of a result without any element is not compared",
]


def dimindices(n, rich):
    out = [0, -1, slice(None), slice(1, None), slice(None, 1), slice(None, None, -1), [0], [n - 1, 0], [i % 2 == 0 for i in range(n)]]
    if rich >= 1:
        out += [slice(0, 0), [], slice(-1, None, -2), list(range(n)), [True] * n, [False] * n]
    if rich >= 2:
        out += [n - 1, slice(None, None, 2), slice(-2, None), slice(n, None, -1), slice(0, n), range(n), [0, 0], [-1], [0, n - 1, 0], slice(None, -1)]
    seen, res = set(), []
    for x in out:
        if repr(x) not in seen:
            seen.add(repr(x))
            res.append(x)
    return res


def tup(index):
    """For numpy"""
    return tuple(list(i) if isinstance(i, range) else i for i in index) if isinstance(index, tuple) else (list(index) if isinstance(index, range) else index)


def variants(index, ndim, newaxis):
    """An index over all dimensions and its variants"""
    yield index
    if ndim == 1:
        yield index[0]
    # trailing : may be omitted, any : may be an ellipsis
    k = len(index)
    full = lambda i: isinstance(i, slice) and i == slice(None)  # noqa
    while k and full(index[k - 1]):
        k -= 1
        if k:
            yield index[:k]
            if k == 1:
                yield index[0]
        yield index[:k] + (Ellipsis,)
    i = 0
    while i < ndim:
        if full(index[i]):
            j = i
            while j < ndim and full(index[j]):
                j += 1
            yield index[:i] + (Ellipsis,) + index[j:]
            i = j
        else:
            i += 1
    for i in range(ndim + 1):
        yield index[:i] + (Ellipsis,) + index[i:]
    if all(full(i) for i in index):
        yield Ellipsis
        yield ()
        yield np.newaxis
    if newaxis:
        for i in range(ndim + 1):
            one = index[:i] + (np.newaxis,) + index[i:]
            yield one
            if newaxis > 1:
                for j in range(i, ndim + 2):
                    yield one[:j] + (np.newaxis,) + one[j:]


def plain_expand(index, ndim):
    """What an index means per dimension: tuple without ellipsis"""
    if not isinstance(index, tuple):
        index = (index,)
    n = sum(1 for i in index if i is not None and i is not Ellipsis)
    if any(i is Ellipsis for i in index):
        k = [i is Ellipsis for i in index].index(True)
        return index[:k] + (slice(None),) * (ndim - n) + index[k + 1 :]
    return index + (slice(None),) * (ndim - n)


def expected(full, index):
    try:
        want = full[tup(index)]
    except IndexError as e:
        return None, e
    if isinstance(index, tuple) and any(i is Ellipsis for i in index):
        # an ellipsis which stands for nothing does not separate a list from an integer
        want = full[tup(plain_expand(index, full.ndim))]
    return want, None


def lists(index):
    """Length of the lists"""
    out = []
    for i in plain_expand(index, 0) if isinstance(index, tuple) else (index,):
        if isinstance(i, (list, range)):
            i = list(i)
            out.append(sum(i) if i and all(isinstance(x, bool) for x in i) else len(i))
    return out


def needs_broadcast(index):
    return len(set(lists(index))) > 1


class Checker:
    def __init__(self, ctx, shape, axis):
        self.ctx, self.shape, self.axis = ctx, shape, axis
        n = int(np.prod(shape))
        self.full = (np.arange(n, dtype=np.int16) * 3 + 1).reshape(shape)
        self.items = [np.array(np.take(self.full, i, axis=axis)) for i in range(shape[axis])]
        self.kinds = {}

    def fail(self, what, index, msg):
        self.ctx.fail("%s:%s" % (what, kind(index)), {"shape": self.shape, "axis": self.axis, "index": repr(index), "what": what}, "%s of shape %s stacked along %d, index %r: %s" % (what, self.shape, self.axis, index, msg))

    def get(self, index):
        from spectrocrunch.utils import indexing

        ctx = self.ctx
        ctx.tick(1, "reads")
        want, err = expected(self.full, index)
        used = []

        def generator(i):
            used.append(i)
            return self.items[i]

        try:
            got = indexing.getitem(generator, list(range(self.shape[self.axis])), index, len(self.shape), shapefull=self.shape, axis=self.axis)
            exc = None
        except Exception as e:  # noqa
            got, exc = None, e
        if err is not None:
            if exc is None:
                self.fail("read", index, "refused by numpy (%s) but gives %r" % (err, got))
            else:
                ctx.outcome("refused")
            return
        if exc is not None:
            if isinstance(exc, (IndexError, ValueError)) and needs_broadcast(index):
                ctx.outcome("lists of different length")
                return
            self.fail("read", index, "raises %r instead of giving %r" % (exc, want))
            return
        got = np.asarray(got)
        if got.shape != want.shape:
            self.fail("read", index, "shape %s instead of %s" % (got.shape, want.shape))
            return
        if not np.array_equal(got, want) or (want.size and got.dtype != want.dtype):
            self.fail("read", index, "gives %r instead of %r" % (got, want))
            return
        exp = [i for i in plain_expand(index, len(self.shape)) if i is not None]
        sel = np.atleast_1d(np.arange(self.shape[self.axis])[tup(exp[self.axis])])
        extra = set(used) - set(int(x) for x in sel)
        if extra:
            self.fail("access", index, "items %s are read, only %s are selected" % (sorted(extra), sorted(sel)))
        ctx.outcome("read %dd" % want.ndim)

    METHODS = ["set", "add", "sub", "mul", "div", "and", "or"]

    def set(self, index, methods):
        from spectrocrunch.utils import indexing

        ctx = self.ctx
        want0, err = expected(self.full, index)
        for method in methods:
            dtype = np.float64 if method == "div" else np.int64
            values = [5]
            if want0 is not None:
                shp = want0.shape
                values.append((np.arange(want0.size) + 100).reshape(shp))
                if method == "set" and want0.ndim:
                    values.append((np.arange(shp[-1]) + 200))
                    values.append((np.arange(shp[0]) + 300).reshape((-1,) + (1,) * (want0.ndim - 1)))
                    values.append(np.full((1,) * want0.ndim, 7))
            ls = lists(index)
            dup = any(isinstance(i, (list, range)) and len(set(k % n for k in i)) != len(i) for i, n in zip([x for x in plain_expand(index, len(self.shape)) if x is not None], self.shape) if not (i and isinstance(i, list) and isinstance(i[0], bool))) and len(ls) > 0
            if dup and method != "set":
                continue
            for v in values:
                ctx.tick(1, "writes")
                ref = self.full.astype(dtype)
                v = np.asarray(v, dtype=dtype) if not np.isscalar(v) else v
                exc = None
                items = [np.array(np.take(ref, i, axis=self.axis)) for i in range(self.shape[self.axis])]
                try:
                    indexing.setitem(lambda i: items[i], list(range(self.shape[self.axis])), index, len(self.shape), v, method=method, shapefull=self.shape, axis=self.axis)
                except Exception as e:  # noqa
                    exc = e
                got = np.stack(items, axis=self.axis)
                if err is not None:
                    if exc is None and not np.array_equal(got, ref):
                        self.fail("write", index, "refused by numpy but writes")
                    continue
                if exc is not None:
                    if isinstance(exc, (IndexError, ValueError)) and needs_broadcast(index):
                        continue
                    what = "broadcast write" if np.ndim(v) and np.shape(v) != want0.shape else "write"
                    self.fail(what, index, "%s of %r raises %r" % (method, v, exc))
                    continue
                ind = tup(plain_expand(index, len(self.shape)))
                if method == "set":
                    ref[ind] = v
                elif method == "add":
                    ref[ind] += v
                elif method == "sub":
                    ref[ind] -= v
                elif method == "mul":
                    ref[ind] *= v
                elif method == "div":
                    ref[ind] /= v
                elif method == "and":
                    ref[ind] &= v
                else:
                    ref[ind] |= v
                if not np.array_equal(got, ref):
                    what = "broadcast write" if np.ndim(v) and np.shape(v) != want0.shape else "write"
                    self.fail(what, index, "%s of %s gives %s instead of %s" % (method, np.asarray(v).tolist(), got.tolist(), ref.tolist()))

    def helpers(self, index):
        """Index helper functions, independent of the stack axis"""
        from spectrocrunch.utils import indexing as ix

        ctx, full, shape = self.ctx, self.full, self.shape
        ndim = len(shape)
        want, err = expected(full, index)
        if err is not None:
            return
        ctx.tick(1, "helpers")

        def attempt(name, func):
            try:
                return func()
            except Exception as e:  # noqa
                if isinstance(e, (IndexError, ValueError)) and needs_broadcast(index):
                    return None
                self.fail(name, index, "raises %r" % (e,))
                return None

        exp = attempt("expand", lambda: ix.expand(index, ndim))
        if exp is None:
            return
        norm = lambda x: tuple(list(i) if isinstance(i, range) else i for i in (x if isinstance(x, tuple) else (x,)))  # noqa
        if norm(exp) != norm(plain_expand(index, ndim)):
            self.fail("expand", index, "%r instead of %r" % (exp, plain_expand(index, ndim)))
            return
        if ndim == 1 and not isinstance(exp, tuple):
            exp = (exp,)
        shp = attempt("shape_afterindexing", lambda: ix.shape_afterindexing(shape, index))
        if shp is not None and tuple(shp) != want.shape:
            self.fail("shape_afterindexing", index, "%s instead of %s" % (shp, want.shape))
        new = attempt("extract_newaxis", lambda: ix.extract_newaxis(exp))
        if new is not None:
            i2, op = new
            r = attempt("extract_newaxis", lambda: op(full[tup(tuple(i2))]))
            if r is not None and not np.array_equal(r, want):
                self.fail("extract_newaxis", index, "gives %r instead of %r" % (r, want))
            if any(i is None for i in i2):
                self.fail("extract_newaxis", index, "newaxis is left: %r" % (i2,))
        parts = attempt("extract_dimnonchanging", lambda: (ix.extract_dimchanging(exp), ix.extract_dimnonchanging(exp)))
        if parts is not None:
            i1, (i2, iadv) = parts
            r = attempt("extract_dimnonchanging", lambda: full[tup(i1)][tup(i2)])
            if r is not None and not np.array_equal(r, want):
                self.fail("extract_dimnonchanging", index, "gives %r instead of %r" % (r, want))
        b = attempt("nonchanging", lambda: ix.nonchanging(index, shape if isinstance(index, tuple) else shape[0]))
        if b and not (want.shape == full.shape and np.array_equal(want, full)):
            if not any(i is Ellipsis or i is None for i in (index if isinstance(index, tuple) else (index,))) or want.shape == full.shape:
                self.fail("nonchanging", index, "is said not to change anything")
        if not b and norm(plain_expand(index, ndim)) == (slice(None),) * ndim:
            self.fail("nonchanging", index, "is said to change something")
        for ax in range(-ndim, ndim):
            p = attempt("axisindex", lambda: ix.axisindex(exp, ax, ndim))
            if p is not None:
                pos = [k for k, i in enumerate(exp) if i is not None][ax % ndim]
                if p != pos:
                    self.fail("axisindex", index, "axis %d at %d instead of %d" % (ax, p, pos))
        for n in range(1, ndim + 1):
            for axes in itertools.combinations(range(ndim), n):
                for neg in (False, True):
                    axes2 = [a - ndim if neg else a for a in axes]
                    r = attempt("replacefull", lambda: ix.replacefull(index, ndim, axes2))
                    if r is None:
                        continue
                    ref = list(plain_expand(index, ndim))
                    pos = [k for k, i in enumerate(ref) if i is not None]
                    for a in axes:
                        ref[pos[a]] = slice(None)
                    if norm(r) != norm(tuple(ref)):
                        self.fail("replacefull", index, "axes %s: %r instead of %r" % (axes2, r, ref))
        axesorder = attempt("axesorder", lambda: ix.axesorder_afterindexing(index, ndim))
        if axesorder is not None:
            if len(axesorder[0]) != want.ndim:
                self.fail("axesorder", index, "%r for %d dimensions" % (axesorder[0], want.ndim))


def kind(index):
    if not isinstance(index, tuple):
        index = (index,)
    out = ""
    for i in index:
        if i is None:
            out += "N"
        elif i is Ellipsis:
            out += "E"
        elif isinstance(i, slice):
            out += ":" if i == slice(None) else "s"
        elif isinstance(i, (list, range)):
            out += "b" if i and isinstance(i[0], bool) else "l" + ("0" if len(i) == 0 else "")
        else:
            out += "i"
    return out


# ---------------------------------------------------------------- HDF5 grids


def h5grid(ctx, shape, nsig, shard, rich):
    """Grid of HDF5 signals"""
    import h5py

    from mc.checks import tasklib
    from spectrocrunch.io import nxfs
    from spectrocrunch.process import h5regulargrid

    tasklib.quiet()
    d = os.path.join(ctx.scratch, "c11")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    fn = os.path.join(d, "g.h5")
    names = "ABCD"[:nsig]
    data = {n: (np.arange(int(np.prod(shape))) * 2 + 100 * k).reshape(shape).astype(np.float32) for k, n in enumerate(names)}
    proc = tasklib.small_input(fn, groups=(("g", names),), shape=shape, fill=lambda g, s, sh: data[s])
    nxdata = proc.results["g"]
    dsets = {n: nxdata[n].path for n in names}
    for stackdim in range(len(shape) + 1):
        case = {"h5": [list(shape), nsig], "stackdim": stackdim}
        ctx.current = case
        grid = h5regulargrid.NXRegularGrid(nxdata, stackdim=stackdim)
        full = np.stack([data[s.name] for s in grid.signals], axis=stackdim)
        if sorted(s.name for s in grid.signals) != sorted(names):
            ctx.fail("h5:signals", case, "signals %s instead of %s" % ([s.name for s in grid.signals], names))

        def fail(what, index, msg):
            ctx.fail("h5:%s:%s" % (what, kind(index)), dict(case, index=repr(index)), "grid of %d signals %s, stackdim %d, %s %r: %s" % (nsig, shape, stackdim, what, index, msg))

        if grid.shape != full.shape or grid.ndim != full.ndim or grid.size != full.size:
            fail("shape", (), "%s instead of %s" % (grid.shape, full.shape))
        try:
            v = grid.values
            if not np.array_equal(v, full):
                fail("values", (), "%r instead of %r" % (v.tolist(), full.tolist()))
        except Exception as e:  # noqa
            fail("values", (), "raises %r" % (e,))
        if grid.dtype != full.dtype:
            fail("dtype", (), "%s" % grid.dtype)
        if len(grid) != len(full):
            fail("len", (), "%d instead of %d" % (len(grid), len(full)))
        for sdim in range(-full.ndim, full.ndim):
            shp, gen = grid.sliceinfo(sdim)
            for i in range(full.shape[sdim]):
                if not np.array_equal(grid[gen(i)], np.take(full, i, axis=sdim)) or tuple(shp) != np.take(full, i, axis=sdim).shape:
                    fail("slice", gen(i), "is not item %d along %d" % (i, sdim))
        opts = [[i for i in dimindices(n, rich) if not (isinstance(i, slice) and i.step and i.step < 0)] for n in full.shape]
        k = 0
        with proc.nxentry().h5open():
            for combo in itertools.product(*opts):
                for index in variants(combo, full.ndim, 1):
                    k += 1
                    if k % NH5 != shard:
                        continue
                    want, err = expected(full, index)
                    ctx.tick(1, "reads of HDF5 grids")
                    ctx.trace(1)
                    try:
                        got = grid[index]
                        exc = None
                    except Exception as e:  # noqa
                        exc = e
                    if err is not None:
                        if exc is None:
                            fail("read", index, "refused by numpy")
                        continue
                    if exc is not None:
                        # h5py does not support everything
                        ctx.outcome("h5 refused %s" % type(exc).__name__)
                        if sum(isinstance(i, (list, range)) for i in combo) == 0:
                            fail("read", index, "raises %r" % (exc,))
                        continue
                    got = np.asarray(got)
                    if got.shape != want.shape or not np.array_equal(got, want):
                        fail("read", index, "gives %r instead of %r" % (got, want))
                    ctx.outcome("h5 read")
                    if k % 3 or sum(isinstance(i, (list, range)) for i in combo):
                        continue
                    # write, compare and restore
                    for val in (np.float32(7), (np.arange(want.size) + 1000).reshape(want.shape).astype(np.float32)):
                        ctx.tick(1, "writes to HDF5 grids")
                        ref = full.copy()
                        ref[tup(plain_expand(index, full.ndim))] = val
                        try:
                            grid[index] = val
                        except Exception as e:  # noqa
                            fail("write", index, "raises %r" % (e,))
                        now = grid[(slice(None),) * full.ndim]
                        if not np.array_equal(now, ref):
                            fail("write", index, "of %r gives %r instead of %r" % (np.asarray(val).tolist(), now.tolist(), ref.tolist()))
                        with proc.open() as g:
                            for n in names:
                                g.file[dsets[n]][()] = data[n]
        if shard == 0:
            for name, op in (("+=", lambda a: a + 2), ("-=", lambda a: a - 2), ("*=", lambda a: a * 3)):
                g = grid
                r = getattr(grid, {"+=": "__iadd__", "-=": "__isub__", "*=": "__imul__"}[name])({"+=": 2, "-=": 2, "*=": 3}[name])
                now = grid[(slice(None),) * full.ndim]
                if not np.array_equal(now, op(full)):
                    fail(name, (), "gives %r" % now.tolist())
                if r is not g:
                    fail(name, (), "does not give the grid back: %r" % (r,))
                with proc.open() as g:
                    for n in names:
                        g.file[dsets[n]][()] = data[n]
        ctx.state(("h5", shape, nsig, stackdim))
    shutil.rmtree(d)


NH5 = 8

# ----------------------------------------------------------------


def worker_init():
    import warnings

    warnings.simplefilter("ignore")
    import spectrocrunch.utils.indexing  # noqa


def plan(tier):
    if tier == "quick":
        return [((3,), 2, 2), ((2, 3), 2, 2), ((1, 2), 2, 2), ((2, 1, 3), 1, 1), ((3, 2, 2), 0, 2)]
    return [((3,), 2, 2), ((2, 3), 2, 2), ((1, 2), 2, 2), ((3, 3), 2, 2), ((2, 1, 3), 2, 2), ((3, 2, 2), 2, 2), ((3, 3, 3), 1, 2), ((2, 2, 2, 2), 0, 2)]


NP = 8


def shards(tier):
    out = []
    for shape, rich, newaxis in plan(tier):
        for axis in range(-1, len(shape)):
            for p in range(NP if len(shape) > 1 else 1):
                out.append({"shape": list(shape), "rich": rich, "newaxis": newaxis, "axis": axis, "part": p})
    grids = [((2, 3), 2), ((2, 3), 3)] + ([((2, 1, 3), 2), ((2, 2, 2), 3)] if tier == "thorough" else [])
    for shape, nsig in grids:
        for p in range(NH5):
            out.append({"h5": [list(shape), nsig], "part": p, "rich": 1 if tier == "thorough" else 0})
    return out


def run_shard(shard, ctx):
    ctx.current = shard
    if "h5" in shard:
        return h5grid(ctx, tuple(shard["h5"][0]), shard["h5"][1], shard["part"], shard["rich"])
    shape, axis = tuple(shard["shape"]), shard["axis"]
    c = Checker(ctx, shape, axis)
    k = -1
    for combo in itertools.product(*[dimindices(n, shard["rich"]) for n in shape]):
        k += 1
        if len(shape) > 1 and k % NP != shard["part"]:
            continue
        for v, index in enumerate(variants(combo, len(shape), shard["newaxis"])):
            ctx.state((shape, repr(index)))
            ctx.trans(1)
            if axis < 0:
                c.helpers(index)
                if v == 0:
                    c.get(index)
                continue
            c.get(index)
            c.set(index, c.METHODS if v == 0 else ["set"])
            ctx.trace(1)
    ctx.sample(shard)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if "h5" in case:
        for p in range(NH5):
            h5grid(ctx, tuple(case["h5"][0]), case["h5"][1], p, 0)
        return
    c = Checker(ctx, tuple(case["shape"]), case["axis"])
    index = eval(case["index"], {"slice": slice, "Ellipsis": Ellipsis, "None": None, "range": range})
    c.get(index)
    c.helpers(index)
    if case["axis"] >= 0:
        c.set(index, c.METHODS)
