"""C15: all products of up to n operators in every association, against successive application."""

import copy
import itertools
import math

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all products of up to 3 of 26 operators (linear with negative, zero, fractional and unit slope, clipping with none, one or two limits, disjoint, touching and reversed limits, clipping to nan, invertible functions, identity) in every association, evaluated at 25 positions as number and as array, with inverses; all products of 4 of 9 operators; all pairs of 676 products compared; powers -4..5 of products of up to 2; operators and values with units",
    "thorough": "all products of 4 operators and of 5 of 9 operators",
}
ASSUMPTIONS = [
    "limits, slopes and positions are such that the arithmetic is exact, values are compared to 1e-9",
    "the inverse of clipping gives nan outside the limits; slope zero has no inverse",
    "clipping with reversed limits gives nan",
]


def half(x):
    return x / 2.0


def spec():
    """name -> (make, forward, backward)"""
    from spectrocrunch.math import linop

    nan = float("nan")
    out = {}

    def lin(m, b):
        out["lin(%s,%s)" % (m, b)] = (lambda: linop.LinearOperator(m, b), lambda x: m * x + b, (lambda y: (y - b) / m) if m else None, lambda x: bool(m))

    def clip(a, b):
        def f(x):
            if math.isnan(x) or (a is not None and b is not None and a > b):
                return nan
            if a is not None and x < a:
                return a
            if b is not None and x > b:
                return b
            return x

        out["clip(%s,%s)" % (a, b)] = (lambda: linop.Clip(a, b), f, inside(a, b), lambda x: not math.isnan(inside(a, b)(x)))

    def inside(a, b):
        return lambda y: nan if math.isnan(y) or (a is not None and y < a) or (b is not None and y > b) else y

    def nclip(a, b):
        out["nclip(%s,%s)" % (a, b)] = (lambda: linop.NaNClip(a, b), inside(a, b), inside(a, b), lambda x: not math.isnan(inside(a, b)(x)))

    for m, b in ((2, 1), (-1, 0), (0.5, -3), (0, 2), (1, 0), (-2, 0.5), (1, 4)):
        lin(m, b)
    for a, b in ((-1, 3), (None, 3), (-1, None), (None, None), (4, 6), (3, 4), (5, 1), (0, 0)):
        clip(a, b)
    for a, b in ((-1, 3), (None, 3), (-1, None), (4, 6), (3, 4), (5, 1), (None, None)):
        nclip(a, b)
    out["twice"] = (lambda: linop.Lambda("twice", "half", lambda x: 2.0 * x, lambda x: x / 2.0), lambda x: 2 * x, lambda y: y / 2, lambda x: True)
    out["plus"] = (lambda: linop.Lambda("plus", "minus", lambda x: x + 1.5, lambda x: x - 1.5), lambda x: x + 1.5, lambda y: y - 1.5, lambda x: True)
    # same name but another function
    out["plus2"] = (lambda: linop.Lambda("plus", "minus", lambda x: x + 0.5, lambda x: x - 0.5), lambda x: x + 0.5, lambda y: y - 0.5, lambda x: True)
    out["id"] = (lambda: linop.Identity(), lambda x: x, lambda y: y, lambda x: True)
    return out


XS = [x * 0.5 for x in range(-7, 15)] + [-30.0, 40.0, float("nan")]
FEW = ["lin(2,1)", "lin(-1,0)", "lin(0,2)", "clip(-1,3)", "clip(None,3)", "clip(4,6)", "nclip(-1,3)", "plus", "id"]


def assoc(seq):
    """Every way to multiply: nested pairs"""
    if len(seq) == 1:
        yield seq[0]
        return
    for i in range(1, len(seq)):
        for a in assoc(seq[:i]):
            for b in assoc(seq[i:]):
                yield (a, b)


def build(tree, sp):
    if isinstance(tree, str):
        return sp[tree][0]()
    a, b = build(tree[0], sp), build(tree[1], sp)
    return a * b


def forward(names, sp, x):
    """(result, every step can be undone)"""
    undo = True
    for n in reversed(names):
        undo = undo and sp[n][3](x)
        x = sp[n][1](x)
    return x, undo


def backward(names, sp, y):
    for n in names:
        y = sp[n][2](y)
    return y


def close(a, b):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def evaluate(op, xs, array):
    if array:
        x = np.array(xs, dtype=float)
        keep = x.copy()
        y = np.asarray(op(x))
        if not np.array_equal(x, keep, equal_nan=True):
            raise RuntimeError("the argument is modified")
        return np.broadcast_to(y, x.shape).tolist()
    return [float(op(x)) for x in xs]


def check_product(names, sp, ctx):
    want = [forward(names, sp, x) for x in XS]
    inv = all(sp[n][2] for n in names)
    wanti = [backward(names, sp, y) for y in XS] if inv else None
    for tree in assoc(tuple(names)):
        case = {"product": tree if isinstance(tree, str) else repr(tree)}
        ctx.current = case
        ctx.tick(1, "products")
        try:
            op = build(tree, sp)
            got = evaluate(op, XS, True)
            one = evaluate(op, XS[::8], False)
        except Exception as e:  # noqa
            ctx.fail("product", case, "%s raises %r" % (tree, e))
            continue
        for x, (w, u), g in zip(XS, want, got):
            if not close(w, g):
                ctx.fail("product", case, "%s at %s gives %s instead of %s" % (tree, x, g, w))
                break
        for x, (w, u), g in zip(XS[::8], want[::8], one):
            if not close(w, g):
                ctx.fail("product", case, "%s at number %s gives %s instead of %s" % (tree, x, g, w))
                break
        if inv:
            try:
                i = op.inverse
                goti = evaluate(i, XS, True)
                undone = evaluate(i, got, True)
            except Exception as e:  # noqa
                ctx.fail("inverse", case, "inverse of %s raises %r" % (tree, e))
                continue
            for x, w, g in zip(XS, wanti, goti):
                if not close(w, g):
                    ctx.fail("inverse", case, "inverse of %s at %s gives %s instead of %s" % (tree, x, g, w))
                    break
            for x, (w, u), g in zip(XS, want, undone):
                if u and not close(x, g):
                    ctx.fail("inverse", case, "inverse of %s does not undo %s: %s" % (tree, x, g))
                    break
        ctx.trans(1)
    ctx.state(tuple(names))
    ctx.trace(1)


def check_power(names, sp, ctx):
    from spectrocrunch.math import linop

    tree = next(iter(assoc(tuple(names))))
    op = build(tree, sp)
    if not hasattr(op, "__pow__"):
        return
    for p in range(-4, 6):
        case = {"power": [list(names), p]}
        ctx.current = case
        if p < 0 and not all(sp[n][2] for n in names):
            continue
        ctx.tick(1, "powers")
        try:
            got = evaluate(op**p, XS, True)
        except Exception as e:  # noqa
            ctx.fail("power %s" % ("negative" if p < 0 else "zero" if p == 0 else "positive"), case, "(%s)**%d raises %r" % (tree, p, e))
            continue
        for x, g in zip(XS, got):
            w = x
            for _ in range(abs(p)):
                w = backward(names, sp, w) if p < 0 else forward(names, sp, w)[0]
            if not close(w, g):
                ctx.fail("power %s" % ("negative" if p < 0 else "zero" if p == 0 else "positive"), case, "(%s)**%d at %s gives %s instead of %s" % (tree, p, x, g, w))
                break
    ctx.trans(1)


def products(sp, n):
    for k in range(1, n + 1):
        yield from itertools.product(sp, repeat=k)


def check_equal(ctx, sp, part):
    """Equality implies equal results; copies are equal"""
    items = []
    for names in products(sp, 2):
        op = build(next(iter(assoc(tuple(names)))), sp)
        items.append((names, op, evaluate(op, XS, True)))
    for i, (na, a, va) in enumerate(items):
        if i % NP != part:
            continue
        case = {"equal": [list(na), list(na)]}
        ctx.current = case
        if not (a == copy.copy(a)) or a != copy.copy(a):
            ctx.fail("equal copy", case, "a copy of %s is not equal to it" % (na,))
        again = build(next(iter(assoc(tuple(na)))), sp)
        lam = any(n in ("twice", "plus", "plus2") for n in na)
        if not lam and (not (a == again) or a != again):
            ctx.fail("equal again", case, "%s made twice is not equal" % (na,))
        for nb, b, vb in items:
            ctx.tick(1, "comparisons")
            e = a == b
            if bool(e) == bool(a != b):
                ctx.fail("equal and unequal", {"equal": [list(na), list(nb)]}, "%s and %s are equal %s and unequal %s" % (na, nb, e, a != b))
            if e and not all(close(x, y) for x, y in zip(va, vb)):
                ctx.fail("equal", {"equal": [list(na), list(nb)]}, "%s and %s are equal but give different results" % (na, nb))
        for ne, other in (("none", None), ("number", 1), ("text", "x")):
            if a == other or not (a != other):
                ctx.fail("equal " + ne, case, "%s equals %r" % (na, other))


def check_inplace(names, sp, ctx):
    """Histories of in-place products on shared operators"""
    case = {"inplace": list(names)}
    ctx.current = case
    ops = {n: sp[n][0]() for n in names}
    before = {n: evaluate(o, XS, True) for n, o in ops.items()}
    try:
        total = ops[names[0]]
        first = total
        for k, n in enumerate(names[1:], 2):
            comp = total * ops[n]
            total *= ops[n]
            if evaluate(total, XS, True) != evaluate(comp, XS, True) and not all(close(x, y) for x, y in zip(evaluate(total, XS, True), evaluate(comp, XS, True))):
                ctx.fail("inplace", case, "%s: in-place product differs from the product" % (names[:k],))
            for x, g in zip(XS, evaluate(total, XS, True)):
                if not close(g, forward(names[:k], sp, x)[0]):
                    ctx.fail("inplace", case, "%s at %s gives %s instead of %s" % (names[:k], x, g, forward(names[:k], sp, x)[0]))
                    break
        r = None * first
        if r is not first or first * None is not first:
            ctx.fail("none", case, "product with None")
    except Exception as e:  # noqa
        ctx.fail("inplace", case, "%s raises %r" % (names, e))
    for n, o in ops.items():
        if not all(close(x, y) for x, y in zip(before[n], evaluate(o, XS, True))):
            ctx.fail("operand", case, "%s: operand %s was changed" % (names, n))
    ctx.tick(1, "in-place histories")
    ctx.trans(1)


def check_units(ctx):
    """Operators on quantities"""
    from spectrocrunch.math import linop
    from spectrocrunch.utils import units

    q = lambda x, u: units.Quantity(x, u)  # noqa
    nan = float("nan")
    makes = {
        "lin": (lambda: linop.LinearOperator(2, q(50, "cm")), lambda x: 2 * x + 0.5, lambda y: (y - 0.5) / 2),
        "neg": (lambda: linop.LinearOperator(-1, q(1, "m")), lambda x: 1 - x, lambda y: 1 - y),
        "clip": (lambda: linop.Clip(q(0, "m"), q(200, "cm")), lambda x: nan if math.isnan(x) else min(max(x, 0.0), 2.0), lambda y: y if 0 <= y <= 2 else nan),
        "max": (lambda: linop.Clip(None, q(1000, "mm")), lambda x: nan if math.isnan(x) else min(x, 1.0), lambda y: y if y <= 1 else nan),
        "nclip": (lambda: linop.NaNClip(q(-1, "m"), q(1.5, "m")), lambda x: x if -1 <= x <= 1.5 else nan, lambda y: y if -1 <= y <= 1.5 else nan),
    }
    xs = [x / 4 for x in range(-12, 20)]
    for k in (1, 2, 3):
        for names in itertools.product(makes, repeat=k):
            for tree in assoc(names):
                case = {"units": repr(tree)}
                ctx.current = case
                ctx.tick(1, "products with units")

                def mk(t):
                    return makes[t][0]() if isinstance(t, str) else mk(t[0]) * mk(t[1])

                try:
                    op = mk(tree)
                    for scale, u in ((1.0, "m"), (100.0, "cm")):
                        got = op(q(np.array(xs) * scale, u)).to("m").magnitude.tolist()
                        inv = op.inverse(q(np.array(xs) * scale, u)).to("m").magnitude.tolist()
                        one = float(op(q(xs[5] * scale, u)).to("m").magnitude)
                        for x, g, i in zip(xs, got, inv):
                            w, v = x, x
                            for n in reversed(names):
                                w = makes[n][1](w)
                            for n in names:
                                v = makes[n][2](v)
                            if not close(w, g) or not close(v, i) or (x == xs[5] and not close(one, w)):
                                ctx.fail("units", case, "%s at %s m gives %s instead of %s, inverse %s instead of %s" % (tree, x, g, w, i, v))
                                raise StopIteration
                except StopIteration:
                    pass
                except Exception as e:  # noqa
                    ctx.fail("units", case, "%s raises %r" % (tree, e))
                ctx.trans(1)


NP = 24


def worker_init():
    import warnings

    warnings.simplefilter("ignore")
    import spectrocrunch.math.linop  # noqa


def shards(tier):
    t = tier == "thorough"
    out = []
    for p in range(NP):
        out.append({"what": "product", "n": 4 if t else 3, "part": p})
        out.append({"what": "few", "n": 5 if t else 4, "part": p})
        out.append({"what": "equal", "part": p})
    out += [{"what": "power"}, {"what": "inplace"}, {"what": "units"}]
    return out


def run_shard(shard, ctx):
    sp = spec()
    w = shard["what"]
    if w == "product":
        for i, names in enumerate(products(sp, shard["n"])):
            if i % NP == shard["part"]:
                check_product(names, sp, ctx)
    elif w == "few":
        for i, names in enumerate(itertools.product(FEW, repeat=shard["n"])):
            if i % NP == shard["part"]:
                check_product(names, sp, ctx)
    elif w == "equal":
        check_equal(ctx, sp, shard["part"])
    elif w == "power":
        for names in products(sp, 2):
            check_power(names, sp, ctx)
    elif w == "inplace":
        for names in products(sp, 2):
            check_inplace(names, sp, ctx)
        for names in itertools.product(FEW, repeat=3):
            check_inplace(names, sp, ctx)
    else:
        check_units(ctx)
    ctx.sample(shard)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    sp = spec()
    if "product" in case:
        t = case["product"]
        t = (t,) if t in sp else eval(t)
        names = []

        def walk(x):
            names.append(x) if isinstance(x, str) else [walk(y) for y in x]

        walk(t)
        check_product(names, sp, ctx)
    elif "power" in case:
        check_power(tuple(case["power"][0]), sp, ctx)
    elif "inplace" in case:
        check_inplace(tuple(case["inplace"]), sp, ctx)
    elif "units" in case:
        check_units(ctx)
    else:
        for p in range(NP):
            check_equal(ctx, sp, p)
