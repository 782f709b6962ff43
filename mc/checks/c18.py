"""C18: axes in every representation through histories of operations, in lock step with a list of positions."""

import copy
import itertools
import math

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "39 axes (values, start/end/steps, start/step/steps, segments, single points, with and without units, descending, irregular, undefined values, categories), all histories of 2 of up to 33 operations (unit changes, setting start, end, step, size, limits, expanding and cropping, editing, simplifying, copying), all invariants after each step; all value lists of length up to 6 over 4 positions and of length up to 9 over 2 step sizes simplified; look-up at 45 positions; interpolation on grids; steps that are not exact in binary",
    "thorough": "all histories of 3 operations; all lists of length up to 7 over 4 positions",
}
ASSUMPTIONS = [
    "positions are compared to 1e-9 of the range; equality across units uses a precision above rounding",
    "expanding and cropping is checked on monotonic axes",
]

UNITS = {"um": 1.0, "mm": 1000.0, "nm": 1e-3, "": 1.0}


def q(x, u="um"):
    from spectrocrunch.utils import units

    return units.Quantity(x, u if u else "dimensionless")


def specs():
    """name -> (make, positions, unit, representation)"""
    from spectrocrunch.process import axis

    P = {"precision": None}
    out = {}

    def add(name, make, values, u, rep):
        out[name] = (make, [float(v) for v in values], u, rep)

    for u in ("um", "mm", ""):
        for name, vals in (
            ("reg", [1, 3, 5, 7]),
            ("desc", [4, 3.5, 3, 2.5, 2]),
            ("irr", [0, 1, 10, 12, 40]),
            ("two", [2, 6]),
            ("one", [3]),
        ):
            add("values %s %s" % (name, u), lambda vals=vals, u=u: axis.Axis(q(np.array(vals, dtype=float), u), name="x", **P), vals, u, "values")
            add("factory %s %s" % (name, u), lambda vals=vals, u=u: axis.factory(q(np.array(vals, dtype=float), u), name="x", **P), vals, u, "factory")
    for name, (a, b, n) in {"a": (10, 20, 5), "b": (8, -4, 6), "c": (5, 5, 0), "d": (0, 1, 1)}.items():
        vals = [a + (b - a) * i / n for i in range(n + 1)] if n else [a]
        add("regular " + name, lambda a=a, b=b, n=n: axis.AxisRegular(q(a), q(b), n, name="x"), vals, "um", "regular")
    add("regular mixed", lambda: axis.AxisRegular(q(1, "mm"), q(3000, "um"), 4), [1, 1.5, 2, 2.5, 3], "mm", "regular")
    for name, (a, s, n) in {"a": (10, 2, 5), "b": (8, -0.5, 6), "c": (5, 3, 0)}.items():
        add("step " + name, lambda a=a, s=s, n=n: axis.AxisRegularInc(q(a), q(s), n, name="x"), [a + s * i for i in range(n + 1)], "um", "step")
    add("step mixed", lambda: axis.AxisRegularInc(q(1, "mm"), q(500, "um"), 3), [1, 1.5, 2, 2.5], "mm", "step")
    add("number", lambda: axis.AxisNumber(q(7), name="x"), [7], "um", "number")
    add("segments", lambda: axis.AxisSegments([q(0), q(4), q(10)], [4, 2], name="x"), [0, 1, 2, 3, 4, 7, 10], "um", "segments")
    add("segments one", lambda: axis.AxisSegments([q(0), q(4)], [4], name="x"), [0, 1, 2, 3, 4], "um", "segments")
    add("segments three", lambda: axis.AxisSegments([q(9), q(8), q(0), q(-1)], [4, 2, 1], name="x"), [9, 8.75, 8.5, 8.25, 8, 4, 0, -1], "um", "segments")
    add("zapscan", lambda: axis.zapscan(0, 8, 4, unit="um", name="x"), [1, 3, 5, 7], "um", "step")
    add("ascan", lambda: axis.ascan(0, 8, 4, unit="um", name="x"), [0, 2, 4, 6, 8], "um", "regular")
    add("arange", lambda: axis.arange(2, 12, 2), [2, 4, 6, 8, 10], "", "factory")
    add("list", lambda: axis.factory([1, 2, 3, 10]), [1, 2, 3, 10], "", "factory")
    return out


def near(a, b, scale=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    tol = 1e-9 * max(scale, np.max(np.abs(b[np.isfinite(b)]), initial=0))
    return bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b)) | (a == b)))


def invariants(ax, vals, u, where, case, ctx, sig):
    """Everything an axis says about itself"""
    from spectrocrunch.process import axis

    def bad(what, got, want):
        ctx.fail("%s: %s" % (sig, what), case, "%s: %s is %s instead of %s" % (where, what, got, want))
        raise StopIteration

    us = u if u else "dimensionless"
    if str(ax.units) != {"um": "micrometer", "mm": "millimeter", "nm": "nanometer", "dimensionless": "dimensionless"}[us]:
        bad("units", ax.units, u)
    if not near(ax.magnitude, vals):
        bad("values", ax.magnitude, vals)
    if not near(ax.values.to(us).magnitude, vals) or ax.values.ndim != 1:
        bad("values", ax.values, vals)
    for other, f in UNITS.items():
        if other and u and not near(ax.umagnitude(other), np.array(vals) * (UNITS[u] / f), 1e-6):
            bad("values in " + other, ax.umagnitude(other), np.array(vals) * (UNITS[u] / f))
    if ax.size != len(vals) or len(ax) != len(vals):
        bad("size", ax.size, len(vals))
    n = ax.nsteps
    if int(np.sum(n)) != len(vals) - 1:
        bad("nsteps", n, len(vals) - 1)
    if not near([ax.start.to(us).magnitude, ax.end.to(us).magnitude], [vals[0], vals[-1]]):
        bad("start and end", (ax.start, ax.end), (vals[0], vals[-1]))
    for i in range(-len(vals), len(vals)):
        if not near([ax[i].to(us).magnitude], [vals[i]]):
            bad("element %d" % i, ax[i], vals[i])
    if len(vals) > 1:
        s = [ax.start_stepsize.to(us).magnitude, ax.end_stepsize.to(us).magnitude]
        w = [vals[1] - vals[0], vals[-1] - vals[-2]]
        if not near(s, w):
            bad("first and last step", s, w)
        if hasattr(ax, "stepsize") and not near([ax.stepsize.to(us).magnitude], [vals[1] - vals[0]]):
            bad("step", ax.stepsize, w[0])
    if hasattr(ax, "limits"):
        lim, k = [vals[0]], 0
        for m in ax.nsteps:
            k += int(m)
            lim.append(vals[k])
        if not near(ax.limits.to(us).magnitude, lim):
            bad("limits", ax.limits, lim)
        st = [(b - a) / m for a, b, m in zip(lim, lim[1:], ax.nsteps)]
        if not near(ax.stepsizes.to(us).magnitude, st):
            bad("steps", ax.stepsizes, st)
    p = ax.precision
    if p.units != ax.units:
        bad("precision", p, ax.units)
    sfx = ax.unit_suffix
    if ax.title.count(sfx) != 1 and sfx:
        bad("title", ax.title, sfx)
    if sfx and sfx in ax.title_nounits:
        bad("title", ax.title_nounits, "no units")
    # the same points in another representation
    same = axis.Axis(q(np.array(vals), us), precision=q(1e-6 * (1 if not u else 1 / UNITS[u]), us))
    if not (same == ax) or same != ax:
        bad("equality", ax, same)
    moved = list(vals)
    for i in {0, len(vals) - 1}:
        moved = list(vals)
        moved[i] += 0.25
        if axis.Axis(q(np.array(moved), us), precision=q(1e-6 * (1 if not u else 1 / UNITS[u]), us)) == ax:
            bad("equality", ax, moved)
    if ax == axis.Axis(q(np.array(vals + [vals[-1] + 1]), us)):
        bad("equality", ax, "one more point")
    repr(ax), str(ax)


def locates(ax, vals, u, where, case, ctx):
    if not len(set(vals)) == len(vals):
        return
    us = u if u else "dimensionless"
    lo, hi = min(vals), max(vals)
    ask = list(vals) + [lo - 5, hi + 5] + [(a * 3 + b) / 4 for a, b in zip(vals, vals[1:])] + [(a + b * 3) / 4 for a, b in zip(vals, vals[1:])]
    want = [min(range(len(vals)), key=lambda i: abs(vals[i] - x)) for x in ask]
    conv = [("number", lambda x: x), ("quantity", lambda x: q(x, us))]
    if u == "um":
        conv.append(("other units", lambda x: q(np.asarray(x) / 1000.0 if isinstance(x, (list, np.ndarray)) else x / 1000.0, "mm")))
    for name, f in conv:
        ctx.tick(len(ask), "look-ups")
        some = slice(None, None, 1 if name == "number" else 5)
        got = [int(ax.locate(f(x))) for x in ask[some]]
        if got != want[some]:
            ctx.fail("locate", case, "%s: %s at %s gives %s instead of %s" % (where, name, ask, got, want))
            return
        got = [int(i) for i in ax.locate(f(np.array(ask)))]
        if got != want:
            ctx.fail("locate", case, "%s: %s array at %s gives %s instead of %s" % (where, name, ask, got, want))
            return
    if ax.locate(None) != slice(None) or [int(i) for i in ax.locate(ax)] != list(range(len(vals))):
        ctx.fail("locate", case, "%s: everything gives %s %s" % (where, ax.locate(None), ax.locate(ax)))
    # interpolation positions
    for nm, arg in (("none", None), ("axis", ax), ("array", np.array(vals)), ("quantity", q(np.array(vals), us))):
        old, new = ax.interpolate(arg)
        old, new = np.asarray(old, dtype=float), np.asarray(new, dtype=float)
        if len(vals) > 1 and (vals[1] - vals[0]) * (vals[-1] - vals[0]) >= 0 and sorted(vals) in (vals, vals[::-1]):
            if not np.all(np.diff(old) > 0):
                ctx.fail("interpolate", case, "%s: positions %s do not increase" % (where, old))
                return
        if not near(new, old):
            ctx.fail("interpolate", case, "%s: %s gives %s instead of %s" % (where, nm, new, old))
            return
        one = [float(np.asarray(ax.interpolate(v)[1])) for v in vals]
        if not near(one, old):
            ctx.fail("interpolate", case, "%s: numbers give %s instead of %s" % (where, one, old))
            return


def monotonic(v):
    d = np.diff(v)
    return len(v) > 1 and (np.all(d > 0) or np.all(d < 0))


def limit_start(v, new):
    """Points after expanding or cropping to new"""
    s = v[1] - v[0]
    sg = 1 if s > 0 else -1
    if (new - v[0]) * sg <= 0:
        n = math.ceil((v[0] - new) / s - 1e-9)
        return [v[0] - s * i for i in range(n, 0, -1)] + list(v)
    k = max(i for i in range(len(v)) if (v[i] - new) * sg <= 1e-9)
    return list(v[k:])


def limit_end(v, new):
    return limit_start(v[::-1], new)[::-1]


def operations(ax, vals, u, rep):
    """(name, apply -> (axis, positions, unit, representation, in place))"""
    us = u if u else "dimensionless"
    out = []

    def op(name, f, nv, nu=u, nrep=rep, inplace=False):
        out.append((name, f, nv, nu, nrep, inplace))

    def setter(attr, value):
        def f(a):
            setattr(a, attr, value)
            return a

        return f

    if u:
        for nu in ("um", "mm", "nm"):
            w = [x * UNITS[u] / UNITS[nu] for x in vals]
            op("to " + nu, lambda a, nu=nu: a.to(nu), w, nu)
            op("units " + nu, setter("units", nu), w, nu, rep, True)
    op("simplify", lambda a: a.simplify(), vals, u, "any")
    op("factory", lambda a: type(a).factory(a), vals, u, "any")
    op("again", lambda a: type(a)(*a.initargs, **a.initkwargs), vals if rep != "edited" else None, None)
    op("copy", lambda a: copy.copy(a), vals)
    op("deepcopy", lambda a: copy.deepcopy(a), vals)
    n = len(vals)
    kind = type(ax).__name__
    if kind == "AxisRegular" and n > 1:
        a, b = vals[0], vals[-1]
        lin = lambda a, b, n: [a + (b - a) * i / n for i in range(n + 1)]  # noqa
        op("start", setter("start", q(a - 2, us)), lin(a - 2, b, n - 1), u, rep, True)
        op("end", setter("end", q(b + 3, us)), lin(a, b + 3, n - 1), u, rep, True)
        op("size", setter("size", 5), lin(a, b, 4), u, rep, True)
        op("nsteps", setter("nsteps", 8), lin(a, b, 8), u, rep, True)
        if u == "um":
            op("end mm", setter("end", q((b + 3) / 1000, "mm")), lin(a, b + 3, n - 1), u, rep, True)
    if kind == "AxisRegularInc" and n > 1:
        a, s = vals[0], vals[1] - vals[0]
        inc = lambda a, s, n: [a + s * i for i in range(n)]  # noqa
        op("start", setter("start", q(a - 2, us)), inc(a - 2, s, n), u, rep, True)
        op("stepsize", setter("stepsize", q(s * 1.5, us)), inc(a, s * 1.5, n), u, rep, True)
        op("size", setter("size", 5), inc(a, s, 5), u, rep, True)
        op("nsteps", setter("nsteps", 8), inc(a, s, 9), u, rep, True)
    if kind == "AxisNumber":
        op("start", setter("start", q(vals[0] + 1, us)), [vals[0] + 1], u, rep, True)
    if kind == "AxisSegments":
        lim = ax.limits.to(us).magnitude.tolist()
        ns = [int(k) for k in ax.nsteps]

        def seg(lim, ns):
            out = []
            for a, b, k in zip(lim, lim[1:], ns):
                out += [a + (b - a) * i / k for i in range(k)]
            return out + [lim[-1]]

        l2 = [x * 2 for x in lim]
        op("limits", setter("limits", [q(x, us) for x in l2]), seg(l2, ns), u, rep, True)
        n2 = [k * 2 for k in ns]
        op("nsteps", setter("nsteps", n2), seg(lim, n2), u, rep, True)
        st = [(b - a) / (k + 1) for a, b, k in zip(lim, lim[1:], ns)]
        op("stepsizes", setter("stepsizes", [q(x, us) for x in st]), seg(lim, [k + 1 for k in ns]), u, rep, True)
    if kind == "Axis":

        def edit(i, v):
            def f(a):
                a[i] = v
                return a

            return f

        w = list(vals)
        w[-1] = w[-1] * 2 + 1
        op("edit last", edit(-1, q(w[-1], us)), w, u, "edited", True)
        if u == "um":
            w = list(vals)
            w[0] = -2000.0
            op("edit first", edit(0, q(-2.0, "mm")), w, u, "edited", True)
    if monotonic(vals) and n > 1:
        s, e = vals[1] - vals[0], vals[-1] - vals[-2]
        for k in (-2, -0.5, 0, 0.5, 1):
            if n > 2 or k < 1:
                v = vals[0] + k * s
                op("newstart %s" % k, lambda a, v=v: a.newstart(v), limit_start(vals, v), u, "any")
                v2 = vals[-1] - k * e
                op("newend %s" % k, lambda a, v=v2: a.newend(v), limit_end(vals, v2), u, "any")
        if u == "um":
            v = vals[0] - s
            op("newstart mm", lambda a, v=v: a.newstart(q(v / 1000, "mm")), limit_start(vals, v), u, "any")
        if n > 2:
            m = vals[n // 2]
            op("newstart middle", lambda a: a.newstart(m), limit_start(vals, m), u, "any")
            op("newend middle", lambda a: a.newend(m), limit_end(vals, m), u, "any")
        for a0, b0 in ((vals[0] - s, vals[-1] + e), (vals[n // 2], vals[-1] + 2 * e), (vals[-1], vals[-1] + e), (vals[0] - s, vals[0]), (vals[n // 2], vals[n // 2])):
            w = sorted(set(limit_start(vals, a0)) | set(limit_end(vals, b0)), reverse=s < 0)
            sg = 1 if s > 0 else -1
            w = [x for x in w if x in limit_start(vals, a0) or (x - a0) * sg >= -1e-9]
            w = [x for x in w if x in limit_end(vals, b0) or (b0 - x) * sg >= -1e-9]
            op("newlimits %s %s" % (a0, b0), lambda a, a0=a0, b0=b0: a.newlimits(a0, b0), w, u, "any")
    return out


def run_histories(name, depth, ctx):
    sp = specs()
    make, vals, u, rep = sp[name]

    def rebuild(path):
        """Fresh objects along a history"""
        ax, v, uu, r = make(), vals, u, rep
        for p in path:
            _, f, nv, nu, nr, _ = [o for o in operations(ax, v, uu, r) if o[0] == p][0]
            ax = f(ax)
            v, uu, r = nv, nu if nu is not None else uu, nr
        return ax, v, uu, r

    def check(ax, v, uu, where, path, sig):
        case = {"history": [name, list(path)]}
        invariants(ax, v, uu, where, case, ctx, sig)
        if "original" not in sig:
            locates(ax, v, uu, where, case, ctx)

    def walk(path, d):
        case = {"history": [name, list(path)]}
        ctx.current = case
        ax, v, uu, r = rebuild(path)
        if v is None:
            return
        for o in operations(ax, v, uu, r):
            oname, f, nv, nu, nr, inplace = o
            if nv is None:
                continue
            sub = path + (oname,)
            case = {"history": [name, list(sub)]}
            ctx.current = case
            ctx.tick(1, "histories")
            try:
                base, _, _, _ = rebuild(path)
                new = f(base)
                where = "%s: %s" % (name, ", ".join(sub))
                sig = oname.split()[0]
                if new is None:
                    ctx.fail("%s: none" % sig, case, "%s gives nothing instead of %s" % (where, nv))
                    continue
                nu2 = uu if nu is None else nu
                check(new, nv, nu2, where, sub, sig)
                if not inplace and new is not base:
                    # the original is untouched, also by changes of the new one
                    check(base, v, uu, where + " (original)", sub, sig + " original")
                    if nu2:
                        new.units = "nm"
                        check(base, v, uu, where + " and units of the result (original)", sub, sig + " original after units")
                    if type(new).__name__ == "Axis":
                        new[0] = q(12345.0, "nm") if nu2 else q(12345.0, "")
                        check(base, v, uu, where + " and edit of the result (original)", sub, sig + " original after edit")
            except StopIteration:
                continue
            except Exception as e:  # noqa
                ctx.fail("%s raises %s" % (oname.split()[0], type(e).__name__), case, "%s: %s raises %r" % (name, ", ".join(sub), e))
                continue
            ctx.trans(1)
            ctx.state((name, sub))
            if d > 1:
                walk(sub, d - 1)

    case = {"history": [name, []]}
    ctx.current = case
    try:
        check(make(), vals, u, name, (), "create")
    except StopIteration:
        return
    walk((), depth)
    ctx.trace(1)


def check_simplify(v, precision, ctx):
    from spectrocrunch.process import axis

    case = {"simplify": [list(v), precision]}
    ctx.current = case
    ctx.tick(1, "simplifications")
    try:
        ax = axis.Axis(q(np.array(v, dtype=float)), precision=q(precision) if precision else None, name="n", title="t")
        s = ax.simplify()
        f = axis.factory(q(np.array(v, dtype=float)), precision=q(precision) if precision else None)
        for nm, a in (("simplified", s), ("factory", f)):
            m = np.asarray(a.magnitude, dtype=float)
            d = np.abs(m - np.array(v)) if m.shape == (len(v),) else np.array([np.inf])
            if m.shape != (len(v),) or not np.all((d <= precision + 1e-9) | (np.isnan(m) & np.isnan(v))):
                ctx.fail(nm, case, "%s (precision %s) becomes %s" % (v, precision, m.tolist()))
            if not (a == ax):
                ctx.fail(nm + " equality", case, "%s (precision %s) is not equal to %r" % (v, precision, a))
        if s.name != "n" or s.precision != ax.precision or s.title != ax.title:
            ctx.fail("simplified description", case, "%s: %s %s %s" % (v, s.name, s.title, s.precision))
    except Exception as e:  # noqa
        ctx.fail("simplify raises %s" % type(e).__name__, case, "%s raises %r" % (v, e))
    ctx.trans(1)


def check_nominal(ctx):
    from spectrocrunch.process import axis

    words = ["a", "bb", "abc", "tuple", "b"]
    for n in range(1, 5):
        for names in itertools.permutations(words, n):
            case = {"nominal": list(names)}
            ctx.current = case
            ctx.tick(1, "categories")
            try:
                ax = axis.factory(list(names), type="nominal")
                ok = ax.size == n and list(ax.values) == list(names) and ax.start == names[0] and ax.end == names[-1] and ax.units is None
                ok = ok and all(ax.locate(x) == i for i, x in enumerate(names))
                ok = ok and list(ax.locate(list(names)[::-1])) == list(range(n))[::-1]
                ok = ok and ax.locate(None) == slice(None)
                old, new = ax.interpolate(None)
                ok = ok and list(old) == list(range(n)) == list(new)
                old, new = ax.interpolate(list(names)[::-1])
                ok = ok and list(new) == list(range(n))[::-1]
                for w in words:
                    if w not in names:
                        try:
                            ax.interpolate(w)
                            ok = False
                        except ValueError:
                            pass
                if not ok:
                    ctx.fail("categories", case, "%s: %s" % (names, ax.values))
            except Exception as e:  # noqa
                ctx.fail("categories", case, "%s raises %r" % (names, e))
            ctx.trans(1)
    for nums in itertools.permutations([3, 1, 7.5], 2):
        ax = axis.factory(list(nums), type="ordinal")
        case = {"nominal": list(nums)}
        if [ax.locate(x) for x in nums] != [0, 1] or ax.locate(list(nums)) != [0, 1]:
            ctx.fail("categories", case, "locate")


def check_grid(ctx):
    """Interpolating a grid at its points gives its data"""
    from spectrocrunch.process import axis
    from spectrocrunch.process.regulargrid import RegularGrid

    sets = [[0.0, 1, 2, 3], [4.0, 3, 2], [0.0, 1, 4, 6, 7], [5.0, 1]]
    for nd in (1, 2, 3):
        for vs in itertools.product(range(len(sets)), repeat=nd):
            for degree in (0, 1):
                case = {"grid": [list(vs), degree]}
                ctx.current = case
                ctx.tick(1, "grids")
                axes = [axis.factory(q(np.array(sets[i]))) for i in vs]
                shape = tuple(len(sets[i]) for i in vs)
                data = np.arange(np.prod(shape), dtype=float).reshape(shape) ** 1.5

                try:
                    g = RegularGrid(axes, data)
                    if g.shape != shape or g.ndim != nd or len(g) != shape[0]:
                        ctx.fail("grid shape", case, "%s" % (g.shape,))
                    args = [[axes[d], None, np.array(sets[i]), q(np.array(sets[i]) / 1000, "mm")][(d + k) % 4] for k in range(1) for d, i in enumerate(vs)]
                    got = np.asarray(g.interpolate(*args, degree=degree))
                    if got.shape != shape or not np.allclose(got, data):
                        ctx.fail("grid interpolation", case, "interpolation at the grid points differs")
                    # a subset in another order
                    sub = [np.array(sets[i])[[1, 0]] if nd == 1 else np.sort(np.array(sets[i])[[0, 1]])[:: 1 if sets[i][1] > sets[i][0] else -1] for i in vs]
                    ind = np.ix_(*[[sets[i].index(x) for x in s] for i, s in zip(vs, sub)])
                    got = np.asarray(g.interpolate(*sub, degree=degree))
                    if got.shape != data[ind].shape or not np.allclose(got, data[ind]):
                        ctx.fail("grid interpolation", case, "interpolation at some grid points differs")
                    # slices
                    for dim in range(-nd, nd):
                        shp, gen = g.sliceinfo(dim)
                        for j in range(shape[dim]):
                            if not np.array_equal(g[gen(j)], np.take(data, j, axis=dim)) or tuple(shp) != np.take(data, j, axis=dim).shape:
                                ctx.fail("grid slices", case, "slice %d of dimension %d" % (j, dim))
                    loc = g.locate(*[s[-1] for s in (sets[i] for i in vs)])
                    if tuple(int(i) for i in loc) != tuple(s - 1 for s in shape):
                        ctx.fail("grid locate", case, "%s" % (loc,))
                    for bad in (-nd - 1, nd):
                        try:
                            g.sliceinfo(bad)
                            ctx.fail("grid slices", case, "dimension %d accepted" % bad)
                        except ValueError:
                            pass
                except Exception as e:  # noqa
                    ctx.fail("grid raises", case, "%s raises %r" % (case, e))
                ctx.trans(1)


def check_neighbour(ctx):
    """Interpolation by the neighbour below or above, and beyond the ends"""
    import scipy.interpolate
    from spectrocrunch.math import interpolate

    for n in (1, 2, 3, 4):
        for xs in itertools.combinations([0.0, 1, 2.5, 4, 7], n):
            xs = np.array(xs)
            ys = xs**2 + 1
            case = {"neighbour": xs.tolist()}
            ctx.current = case
            ask = [-1.0, 0, 0.5, 1, 2, 2.5, 3, 4, 5, 7, 8]
            lo = [max([(x, y) for x, y in zip(xs, ys) if x <= a], default=(0, np.nan))[1] for a in ask]
            hi = [min([(x, y) for x, y in zip(xs, ys) if x >= a], default=(0, np.nan))[1] for a in ask]
            fs = [("below", interpolate.interp1d_floor(xs, ys), lo), ("above", interpolate.interp1d_ceil(xs, ys), hi)]
            if n > 1:
                sl = np.diff(ys) / np.diff(xs)
                ex = [ys[0] + (a - xs[0]) * sl[0] if a < xs[0] else ys[-1] + (a - xs[-1]) * sl[-1] if a > xs[-1] else np.interp(a, xs, ys) for a in ask]
                f = interpolate.extrap1d(scipy.interpolate.interp1d(xs, ys))
                fs.append(("beyond", f, ex))
            for name, f, want in fs:
                ctx.tick(1, "neighbours")
                try:
                    got = np.asarray(f(np.array(ask)), dtype=float)
                    if name != "beyond":
                        one = [float(f(a)) for a in ask]
                        if not near(one, want):
                            ctx.fail("neighbour " + name, case, "%s instead of %s" % (one, want))
                    if not near(got, want):
                        ctx.fail("neighbour " + name, case, "%s instead of %s" % (got, want))
                except Exception as e:  # noqa
                    ctx.fail("neighbour " + name, case, "raises %r" % e)
            ctx.trans(1)


def check_decimal(ctx):
    """Steps that are not exact in binary: the number of steps is the rounded one"""
    from spectrocrunch.process import axis

    steps = [("um", s, k) for s in (0.1, 0.3, 0.7, -0.2, 0.06) for k in (1, 2, 3, 5, 6, 7, 9)]
    for start in (0.0, 0.3, -1.1):
        for (_, s1, n1), (_, s2, n2) in itertools.product(steps, repeat=2):
            if s1 * s2 < 0:
                continue
            lim = [start, start + s1 * n1, start + s1 * n1 + s2 * n2]
            vals = [start + s1 * i for i in range(n1)] + [lim[1] + s2 * i for i in range(n2 + 1)]
            case = {"decimal": [start, s1, n1, s2, n2]}
            ctx.current = case
            ctx.tick(1, "decimal steps")
            try:
                ax = axis.AxisSegments([q(x) for x in lim], [1, 1], name="x")
                for nm, st in (("steps", [q(s1), q(s2)]), ("steps mm", [q(s1 / 1000, "mm"), q(s2 / 1000, "mm")])):
                    ax.stepsizes = st
                    if not near(ax.magnitude, vals) or [int(n) for n in ax.nsteps] != [n1, n2] or not near(ax.stepsizes.to("um").magnitude, [s1, s2]):
                        ctx.fail("decimal steps", case, "%s %s on limits %s gives %s" % (nm, [s1, s2], lim, ax.magnitude.tolist()))
            except Exception as e:  # noqa
                ctx.fail("decimal raises", case, "%s raises %r" % (case, e))
        for u, s, n in steps:
            vals = [start + s * i for i in range(n + 1)]
            case = {"decimal": [start, s, n]}
            ctx.current = case
            for nm, make in (
                ("regular", lambda: axis.AxisRegular(q(start), q(start + s * n), n)),
                ("step", lambda: axis.AxisRegularInc(q(start), q(s), n)),
                ("values", lambda: axis.Axis(q(np.array(vals)), precision=q(1e-6))),
                ("factory", lambda: axis.factory(q(np.array(vals)), precision=q(1e-6))),
            ):
                for k in (-3, -1, 0, 1, 2, n):
                    if k > n:
                        continue
                    ctx.tick(1, "decimal steps")
                    try:
                        a = make().newstart(start + s * k)
                        w = [start + s * i for i in range(k, n + 1)]
                        if not near(a.magnitude, w):
                            ctx.fail("decimal start", case, "%s %s from %s gives %s" % (nm, vals, start + s * k, a.magnitude.tolist()))
                        a = make().newend(start + s * (n - k))
                        w = [start + s * i for i in range(n - k + 1)]
                        if not near(a.magnitude, w):
                            ctx.fail("decimal end", case, "%s %s to %s gives %s" % (nm, vals, start + s * (n - k), a.magnitude.tolist()))
                    except Exception as e:  # noqa
                        ctx.fail("decimal raises", case, "%s raises %r" % (case, e))
    ctx.trace(1)


NP = 8


def worker_init():
    import warnings

    warnings.simplefilter("ignore")
    import spectrocrunch.process.axis  # noqa


def shards(tier):
    t = tier == "thorough"
    out = [{"what": "history", "name": n, "depth": 3 if t else 2} for n in specs()]
    out += [{"what": "simplify", "n": 7 if t else 6, "part": p} for p in range(NP)]
    return out + [{"what": "nominal"}, {"what": "grid"}, {"what": "neighbour"}, {"what": "decimal"}]


def value_lists(n):
    for k in range(1, n + 1):
        for v in itertools.product((0.0, 1.0, 2.0, 4.0), repeat=k):
            yield v
    for k in range(6, 10):
        for st in itertools.product((1.0, 3.0), repeat=k - 1):
            yield tuple(np.cumsum((0.0,) + st).tolist())
    for k in range(1, 5):
        for v in itertools.product((0.0, 1.0, 2.0, float("nan")), repeat=k):
            yield v


def run_shard(shard, ctx):
    w = shard["what"]
    if w == "history":
        run_histories(shard["name"], shard["depth"], ctx)
    elif w == "simplify":
        for i, v in enumerate(value_lists(shard["n"])):
            if i % NP == shard["part"]:
                for p in (0, 0.5, 1.0):
                    check_simplify(v, p, ctx)
    else:
        {"nominal": check_nominal, "grid": check_grid, "neighbour": check_neighbour, "decimal": check_decimal}[w](ctx)
    ctx.sample(shard)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if "history" in case:
        run_histories(case["history"][0], max(1, len(case["history"][1])), ctx)
    elif "simplify" in case:
        check_simplify(tuple(case["simplify"][0]), case["simplify"][1], ctx)
    elif "nominal" in case:
        check_nominal(ctx)
    elif "grid" in case:
        check_grid(ctx)
    elif "decimal" in case:
        check_decimal(ctx)
    else:
        check_neighbour(ctx)
