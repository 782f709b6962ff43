"""C16: linear coordinate transformations against exact 3x3 matrices."""

import itertools
import warnings
from fractions import Fraction as F

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "22 transformations of 5 types, all compositions of up to 3 with every method (before/after, in place, change of frame), inverses and copies, on 5 sets of coordinates; all histories of 2 operations out of 33 on two transformations of each type, of 3 for translation, affine and projective ones; images of 4 shapes with all 22 transformations, two interpolations and missing values; matching points of 5 sets for all maps of each type",
    "thorough": "compositions of up to 4; histories of 3 and 4 operations",
}
ASSUMPTIONS = [
    "floating point results are compared with relative tolerance 1e-9",
    "coordinates of mixed types are homogeneous; images under projections with a horizon may be refused",
    "matching points: fewer than 10 points, not collinear",
]


def worker_init():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


# ---------------------------------------------------------------- exact matrices
def mat(rows):
    return tuple(tuple(F(x) for x in r) for r in rows)


I3 = mat([[1, 0, 0], [0, 1, 0], [0, 0, 1]])


def mul(A, B):
    return tuple(tuple(sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def inv(A):
    (a, b, c), (d, e, f), (g, h, i) = A
    det = a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
    if not det:
        return None
    m = [[e * i - f * h, c * h - b * i, b * f - c * e], [f * g - d * i, a * i - c * g, c * d - a * f], [d * h - e * g, b * g - a * h, a * e - b * d]]
    return tuple(tuple(x / det for x in r) for r in m)


def fl(A):
    return np.array([[float(x) for x in r] for r in A])


def T(x, y):
    return mat([[1, 0, x], [0, 1, y], [0, 0, 1]])


def R(a, b, x=0, y=0):
    return mat([[a, -b, x], [b, a, y], [0, 0, 1]])


def A(a, b, c, d, x=0, y=0):
    return mat([[a, b, x], [c, d, y], [0, 0, 1]])


h, q = F(1, 2), F(1, 4)
RANK = ["translation", "rigid", "similarity", "affine", "projective"]
ALPHA = [
    ("translation", T(0, 0)),
    ("translation", T(1, -2)),
    ("translation", T(-3, h)),
    ("translation", T(0, 2)),
    ("rigid", R(1, 0)),
    ("rigid", R(0, 1, 3, 0)),
    ("rigid", R(F(3, 5), F(-4, 5), 1, 2)),
    ("rigid", R(-1, 0, 4, 3)),
    ("rigid", R(1, 0, 2, -1)),
    ("similarity", R(2, 0)),
    ("similarity", R(F(6, 5), F(8, 5), -1, 3)),
    ("similarity", R(0, -h, 1, 1)),
    ("affine", A(1, 0, 0, 1, -1, 1)),
    ("affine", A(1, 1, 0, 1)),
    ("affine", A(2, 0, 0, -1, 0, 3)),
    ("affine", A(1, 2, 3, 4, -1, h)),
    ("affine", A(0, 1, 1, 0)),
    ("projective", I3),
    ("projective", mat([[1, 0, 0], [0, 1, 0], [q, h, 1]])),
    ("projective", mat([[2, 1, 1], [0, 1, -2], [h, 0, 1]])),
    ("projective", mat([[2, 0, 2], [0, 2, 0], [0, 0, 2]])),
    ("projective", mat([[0, -1, 3], [1, 0, 1], [0, 0, 1]])),
]
COORDS = [
    np.array([1.0, 2.0, 1.0]),
    np.array([3.0, -1.0, 2.0]),
    np.array([[0.0, 1.0, 2.0, -1.5], [1.0, 0.0, 3.0, 2.0], [1.0, 1.0, 1.0, 1.0]]),
    np.array([[0.5], [4.0], [0.25]]),
    np.array([1, 2, 1]),
]


def build(t, M, **kw):
    from spectrocrunch.align import transform, types

    o = transform.transform(getattr(types.transformationType, t), **kw)
    put(o, t, M)
    return o


def put(o, t, M):
    f = fl(M)
    if t == "translation":
        o.settranslation(f[0, 2], f[1, 2])
    elif t == "projective":
        o.setprojective(f)
    elif t == "affine":
        o.setaffine(f[:2])
    else:
        o.setlinear(f[:2, :2])
        o.settranslation(f[:2, 2])


def tname(o):
    from spectrocrunch.align import types

    for n in RANK:
        if getattr(types.transformationType, n) == o.transfotype:
            return n


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9 * (1 + np.abs(b).max()))


def is_(o, M):
    return close(o.getnumpyhomography(), fl(M))


def show(k):
    return "%s%s" % (ALPHA[k][0], [[str(x) for x in r] for r in ALPHA[k][1]])


# ---------------------------------------------------------------- compositions
def one_words(w, case, ctx):
    """w: the transformations in order of application"""
    ctx.tick()
    ctx.trans(len(w))
    ctx.trace(1)
    ctx.state(("word",) + tuple(w))
    ctx.current = case
    what = "composition of " + ", then ".join(map(show, w))
    objs = [build(*ALPHA[k]) for k in w]
    exp = I3
    for k in w:
        exp = mul(exp, ALPHA[k][1])  # change of frame
    typ = RANK[max(RANK.index(ALPHA[k][0]) for k in w)]
    # in place and out of place, from both ends
    b = objs[0]
    for o in objs[1:]:
        b = b.before(o)
    a = objs[-1]
    for o in objs[-2::-1]:
        a = a.after(o)
    bi = objs[0].copy()
    for o in objs[1:]:
        bi.before_inplace(o)
    ai = objs[-1].copy()
    for o in objs[-2::-1]:
        ai.after_inplace(o)
    r = objs[-1]
    for o in objs[-2::-1]:
        r = o.before(r)
    res = {"before": b, "after": a, "before_inplace": bi, "after_inplace": ai, "before (right)": r}
    for n, o in res.items():
        if not is_(o, exp):
            return ctx.fail("compose " + n, case, "%s with %s: %s instead of %s" % (what, n, o.getnumpyhomography(), fl(exp)))
        if len(w) > 1 and tname(o) != typ:
            return ctx.fail("type " + n, case, "%s with %s has type %s" % (what, n, tname(o)))
    for xy in COORDS:
        one = xy
        for o in objs:
            one = o.transformcoordinates(one)
        back = one
        for o in objs[::-1]:
            back = o.transformcoordinatesinverse(back)
        iexp = np.dot(fl(inv(exp)), xy)
        for n, got in (("one after the other", one), ("composed", b.transformcoordinates(xy)), ("composed in place", ai.transformcoordinates(xy))):
            if not close(got, iexp):
                return ctx.fail("coordinates " + n, case, "%s: coordinates %s become %s (%s) instead of %s" % (what, xy.tolist(), got, n, iexp))
        if not close(back, xy) or not close(b.transformcoordinatesinverse(one), xy):
            return ctx.fail("coordinates back", case, "%s: coordinates %s do not return" % (what, xy.tolist()))
    i = b.inverse()
    bb = b.copy()
    bb.inverse_inplace()
    if not is_(i, inv(exp)) or not is_(bb, inv(exp)) or tname(i) != tname(b):
        return ctx.fail("inverse", case, "inverse of %s: %s, in place %s instead of %s" % (what, i.getnumpyhomography(), bb.getnumpyhomography(), fl(inv(exp))))
    if not is_(b.before(i), I3) or not is_(b.after(i), I3):
        return ctx.fail("inverse neutral", case, "%s with its inverse is not the identity" % what)
    c = objs[0]
    d = objs[-1]
    n = c.new_frame(d)
    e = mul(mul(inv(ALPHA[w[-1]][1]), ALPHA[w[0]][1]), ALPHA[w[-1]][1])
    ni = c.copy()
    ni.new_frame_inplace(d)
    nn = n.new_frame(d.inverse())
    if not is_(n, e) or not is_(ni, e) or not is_(nn, ALPHA[w[0]][1]):
        return ctx.fail("frame", case, "%s in the frame of %s: %s, in place %s instead of %s, back %s" % (show(w[0]), show(w[-1]), n.getnumpyhomography(), ni.getnumpyhomography(), fl(e), nn.getnumpyhomography()))
    for k, o in zip(w, objs):
        if not is_(o, ALPHA[k][1]) or tname(o) != ALPHA[k][0]:
            return ctx.fail("operand", case, "%s changes %s to %s %s" % (what, show(k), tname(o), o.getnumpyhomography()))
    ctx.outcome(typ)


def run_words(shard, ctx):
    n = len(ALPHA)
    for k in range(1, shard["n"] + 1):
        for w in itertools.product(range(n), repeat=k):
            if w[0] == shard["first"]:
                one_words(w, {"kind": "words", "w": w}, ctx)


# ---------------------------------------------------------------- histories
LIN = [(0, -1, 1, 0), (2, 0, 0, 2)]
AFF = A(1, 1, 0, 1, 2, -1)
PROJ = mat([[1, 0, 1], [0, 2, 0], [h, 0, 1]])
BASE = {"translation": T(1, -2), "rigid": R(0, 1, 3, 0), "similarity": R(0, 2, 1, 1), "affine": A(1, 1, 0, 1, -1, 1), "projective": mat([[1, 0, 0], [0, 1, 2], [q, h, 1]])}


def hist_ops():
    for o in (0, 1):
        p = 1 - o
        yield from [("trn", o, (2, -1)), ("trn2", o, (0, h)), ("lin", o, 0), ("lin", o, 1), ("aff", o), ("proj", o), ("rigid", o, 2), ("rigid", o, -1), ("identity", o), ("inverse", o), ("before", o, p), ("after", o, p), ("frame", o, p), ("copy", o, p), ("from", o, p)]
    yield from [("before", 0, 0), ("after", 0, 0), ("frame", 0, 0)]


def apply(objs, model, op):
    """model: (type, matrix). False when not applicable"""
    k, o = op[:2]
    t, M = model[o]
    rows = [list(r) for r in M]
    x = objs[o]
    n = t
    if k in ("trn", "trn2"):
        a, b = op[2]
        rows[0][2], rows[1][2] = F(a), F(b)
        x.settranslation(float(a), float(b)) if k == "trn" else x.settranslation([float(a), float(b)])
    elif k == "lin":
        L = LIN[op[2]]
        for i in range(2):
            for j in range(2):
                rows[i][j] = F(L[2 * i + j])
        n = "affine" if t == "translation" else t
        x.setlinear([L[:2], L[2:]])
    elif k == "aff":
        rows[:2] = [list(r) for r in AFF[:2]]
        n = "affine" if t == "translation" else t
        x.setaffine(fl(AFF)[:2])
    elif k == "proj":
        rows = PROJ
        n = "projective"
        x.setprojective(fl(PROJ))
    elif k == "rigid":
        c, s = {2: (-1, 0), -1: (0, -1)}[op[2]]
        rows[:2] = [[F(c), F(-s), F(1)], [F(s), F(c), F(2)]]
        n = None
        x.setrigid(op[2] * np.pi / 2, 1, 2)
    elif k == "identity":
        rows = I3
        x.setidentity()
    elif k == "inverse":
        rows = inv(M)
        if rows is None:
            return False
        x.inverse_inplace()
    else:
        t2, M2 = model[op[2]]
        y = objs[op[2]]
        n = RANK[max(RANK.index(t), RANK.index(t2))]
        if k == "before":
            rows = mul(M, M2)
            x.before_inplace(y)
        elif k == "after":
            rows = mul(M2, M)
            x.after_inplace(y)
        elif k == "frame":
            if inv(M2) is None:
                return False
            rows = mul(mul(inv(M2), M), M2)
            x.new_frame_inplace(y)
        elif k == "copy":
            rows, n = M2, t2
            objs[o] = y.copy()
        elif k == "from":
            rows, n = M2, t2
            x.fromtransform(y)
    model[o] = (n or tname(objs[o]), mat(rows))
    return True


def one_history(ts, hist, ctx):
    case = {"kind": "history", "types": ts, "history": hist}
    ctx.tick()
    ctx.trace(1)
    ctx.current = case
    objs = [build(t, BASE[t]) for t in ts]
    model = [(t, BASE[t]) for t in ts]
    what = "transformations %s, %s" % tuple(ts)
    for op in hist:
        ctx.trans(1)
        try:
            if not apply(objs, model, op):
                return
        except Exception as e:
            return ctx.fail("history %s on %s: %s" % (op[0], model[op[1]][0], type(e).__name__), case, "%s: %s: %s %s" % (what, hist, type(e).__name__, e))
    ctx.state((tuple(ts), repr(hist)))
    for i, (t, M) in enumerate(model):
        if inv(M) is None:
            return
        o = objs[i]
        f = fl(M)
        if not is_(o, M):
            return ctx.fail("history " + hist[-1][0], case, "%s after %s: number %d is %s instead of %s" % (what, hist, i, o.getnumpyhomography(), f))
        if tname(o) != t:
            return ctx.fail("history type " + hist[-1][0], case, "%s after %s: number %d has type %s instead of %s" % (what, hist, i, tname(o), t))
        got = [("translation", o.gettranslation(), f[:2, 2]), ("linear part", o.getlinear(), f[:2, :2]), ("affine part", o.getaffine(), f[:2]), ("projection", o.getprojective(), f)]
        if t in ("translation", "rigid"):
            th, x, y = o.getrigid()
            if close(f[:2, :2], [[f[0, 0], -f[1, 0]], [f[1, 0], f[0, 0]]]) and close(f[0, 0] ** 2 + f[1, 0] ** 2, 1):
                got.append(("rotation", [np.cos(th), np.sin(th), x, y], [f[0, 0], f[1, 0], f[0, 2], f[1, 2]]))
        for n, a, b in got:
            if not close(a, b):
                return ctx.fail("get " + n, case, "%s after %s: %s is %s instead of %s" % (what, hist, n, a, b))
        for xy in COORDS[:3]:
            if not close(o.transformcoordinates(xy), np.dot(fl(inv(M)), xy)) or not close(o.transformcoordinatesinverse(xy), np.dot(f, xy)):
                return ctx.fail("history coordinates", case, "%s after %s: coordinates %s" % (what, hist, xy))
        if o.isidentity() and not close(f, np.identity(3)) or M == I3 and hist[-1][0] == "identity" and hist[-1][1] == i and not o.isidentity():
            return ctx.fail("history identity", case, "%s after %s: isidentity is %s" % (what, hist, o.isidentity()))
    ctx.outcome("history")


def run_history(shard, ctx):
    ops = list(hist_ops())
    for n in range(1, shard["n"] + 1):
        for h_ in itertools.product(ops, repeat=n):
            if ops.index(h_[0]) % 4 == shard["part"]:
                one_history(shard["types"], h_, ctx)


# ---------------------------------------------------------------- images
SHAPES = [(4, 5), (5, 4), (1, 4), (3, 1)]


def image(shape, M, order, img):
    """Expected image and where it is certain"""
    out = np.full(shape, np.nan)
    sure = np.ones(shape, bool)
    dyadic = all(e.denominator & (e.denominator - 1) == 0 for r in M for e in r)
    for yn in range(shape[0]):
        for xn in range(shape[1]):
            v = [sum(M[i][j] * (xn, yn, 1)[j] for j in range(3)) for i in range(3)]
            x, y = v[0] / v[2], v[1] / v[2]
            if not (0 <= x <= shape[1] - 1 and 0 <= y <= shape[0] - 1):
                continue
            if order == 0:
                if x.denominator == 2 or y.denominator == 2:  # equally near
                    sure[yn, xn] = False
                    continue
                out[yn, xn] = img[round(y), round(x)]
            else:
                x0, y0 = min(int(x), max(shape[1] - 2, 0)), min(int(y), max(shape[0] - 2, 0))
                fx, fy = float(x - x0), float(y - y0)
                x1, y1 = min(x0 + 1, shape[1] - 1), min(y0 + 1, shape[0] - 1)
                out[yn, xn] = (1 - fy) * ((1 - fx) * img[y0, x0] + fx * img[y0, x1]) + fy * ((1 - fx) * img[y1, x0] + fx * img[y1, x1])
            if not dyadic and (x in (0, shape[1] - 1) or y in (0, shape[0] - 1)):
                sure[yn, xn] = False
    return out, sure


def run_images(shard, ctx):
    for k in range(len(ALPHA)):
        for order in (0, 1):
            for cval in (np.nan, 0.0):
                for inverse in (False, True):
                    for comp in (None, 1, 5, 13):
                        one_image(shard["shape"], k, order, cval, inverse, comp, {"kind": "image", "shape": shard["shape"], "k": k, "order": order, "cval": repr(cval), "inverse": inverse, "comp": comp}, ctx)


def one_image(shape, k, order, cval, inverse, comp, case, ctx):
    ctx.tick()
    ctx.trans(1)
    ctx.trace(1)
    ctx.current = case
    ctx.state(repr(case))
    shape = tuple(shape)
    img = (np.arange(shape[0] * shape[1], dtype=float).reshape(shape) ** 2 + 1) * 3
    keep = img.copy()
    o = build(*ALPHA[k], cval=cval, order=order)
    M = ALPHA[k][1]
    if inverse:
        o, M = o.inverse(), inv(M)
    if comp is not None:
        o, M = o.before(build(*ALPHA[comp])), mul(M, ALPHA[comp][1])
    what = "image %s under %s (inverse %s, then %s), order %d" % (shape, show(k), inverse, None if comp is None else show(comp), order)
    try:
        got = o.transformimage(img)
    except NotImplementedError:
        if M[2][0] or M[2][1]:
            ctx.outcome("image refused")
        else:
            ctx.fail("image refused", case, "%s is refused" % what)
        return
    exp, sure = image(shape, M, order, img)
    if cval == 0:
        exp[np.isnan(exp)] = 0
    if got.shape != shape or not np.allclose(got[sure], exp[sure], rtol=1e-9, atol=1e-9, equal_nan=True):
        return ctx.fail("image %s" % tname(o), case, "%s gives\n%s\ninstead of\n%s" % (what, got, exp))
    if not np.array_equal(img, keep):
        return ctx.fail("image operand", case, "%s changes the image" % what)
    ctx.outcome("image")


# ---------------------------------------------------------------- matching points
POINTS = [
    [(0, 0), (1, 0), (0, 1)],
    [(1, 2), (3, -1), (4, 4), (0, 2)],
    [(0, 0), (2, 0), (2, 1), (0, 1)],
    [(5, 5), (7, 6), (6, 9), (5, 7), (8, 8)],
    [(-1, 3), (2, 2), (0, 0), (4, 1), (3, 5), (-2, -2), (1, 1)],
]


def run_points(shard, ctx):
    fits = {"translation": ["translation", "rigid", "similarity", "affine"], "rigid": ["rigid", "similarity", "affine"], "similarity": ["similarity", "affine"], "affine": ["affine"]}
    maps = [(t, M) for t, M in ALPHA if t in fits]
    maps += [("rigid", R(F(a, 5), F(b, 5), x, y)) for a, b in ((3, 4), (4, 3), (-3, 4), (-4, -3), (0, 5), (0, -5), (4, -3)) for x, y in ((0, 0), (2, -1))]
    for (t, M), pts in itertools.product(maps, POINTS):
        for fit in fits[t]:
            for perm in itertools.permutations(range(len(pts))) if len(pts) < 5 else [range(len(pts))]:
                p = [pts[i] for i in perm]
                one_points(fit, M, p, {"kind": "points", "fit": fit, "M": [[str(x) for x in r] for r in M], "points": p}, ctx)


def one_points(fit, M, pts, case, ctx):
    ctx.tick()
    ctx.trans(1)
    ctx.trace(1)
    ctx.current = case
    ctx.state(repr(case))
    dest = np.array([[float(x) for x in p] + [1.0] for p in pts]).T
    src = np.dot(fl(M), dest)
    o = build(fit, I3)
    o.fromkeypoints(src[0], src[1], dest[0], dest[1])
    if not np.allclose(o.getnumpyhomography(), fl(M), rtol=1e-7, atol=1e-7):
        ctx.fail("points " + fit, case, "matching points %s (to %s) give %s instead of %s" % (src[:2].T.tolist(), pts, o.getnumpyhomography(), fl(M)))
    ctx.outcome("points " + fit)


# ---------------------------------------------------------------- shards
def shards(tier):
    t = tier == "thorough"
    out = [{"kind": "words", "first": k, "n": 4 if t else 3} for k in range(len(ALPHA))]
    out += [{"kind": "history", "types": list(ts), "part": p, "n": 2 + t + (set(ts) <= {"translation", "affine", "projective"})} for ts in itertools.product(RANK, repeat=2) for p in range(4)]
    out += [{"kind": "images", "shape": s} for s in SHAPES]
    return out + [{"kind": "points"}]


RUN = {"words": run_words, "history": run_history, "images": run_images, "points": run_points}


def run_shard(shard, ctx):
    RUN[shard["kind"]](shard, ctx)


def replay(case, ctx):
    k = case["kind"]
    if "shard" in case:
        run_shard(case["shard"], ctx)
    elif k == "words":
        one_words(tuple(case["w"]), case, ctx)
    elif k == "history":
        one_history(case["types"], [tuple(tuple(x) if isinstance(x, list) else x for x in op) for op in case["history"]], ctx)
    elif k == "image":
        one_image(case["shape"], case["k"], case["order"], float(case["cval"]), case["inverse"], case["comp"], case, ctx)
    else:
        one_points(case["fit"], mat([[F(x) for x in r] for r in case["M"]]), [tuple(p) for p in case["points"]], case, ctx)
