"""C10: lookup tables against a dictionary model, every history up to a depth."""

import copy
import itertools

import numpy as np

from spectrocrunch.utils import units
from spectrocrunch.utils.lut import LUT
from spectrocrunch.patch import jsonpickle
from spectrocrunch.patch.pint import ureg

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all histories of up to 3 operations over 21 operations from 3 initial tables; look-up at 13 positions, scalar and array; all number types of keys, values and look-up positions with tables of 1 to 3 entries",
    "thorough": "all histories of up to 4 operations (kinds linear; depth 3 for nearest, previous, zero)",
}
ASSUMPTIONS = ["values outside the key/value alphabet are not explored"]

Q = ureg.Quantity


def q(x, u):
    return Q(np.asarray(x, dtype=float) if isinstance(x, list) else float(x), u)


# name -> (kind, keys in keV, values in cm, how to give them)
def _ops():
    ops = []
    for k, v in [(1, 10), (2, 20), (3, -5), (2, 0)]:
        ops.append(("add", [k], [v], "scalar"))
        ops.append(("replace", [k], [v], "scalar"))
    ops.append(("add", [1], [4], "otherunits"))
    ops.append(("replace", [3], [7], "otherunits"))
    for kk, vv in [([3, 1], [1, 2]), ([2, 2], [3, 4]), ([1, 2, 3], [1, 1, 1])]:
        ops.append(("add", kk, vv, "array"))
        if len(set(kk)) == len(kk):
            ops.append(("replace", kk, vv, "array"))
    ops.append(("add", [2.5], [1], "tuple"))
    ops.append(("add", [1, 3], [2, 2], "lut"))
    ops.append(("replace", [1, 3], [2, 2], "lut"))
    ops.append(("plus", [0.5, 2], [6, 8], "tuple"))
    ops.append(("iplus", [2, 4], [6, 8], "tuple"))
    ops.append(("clear", [], [], ""))
    return ops


OPS = _ops()
INITS = [None, ([2, 1], [1, 5]), ([3], [9])]


def args(op):
    _, k, v, how = op
    if how == "scalar":
        return (q(k[0], "keV"), q(v[0], "cm"))
    if how == "otherunits":
        return (q(k[0] * 1000, "eV"), q(v[0] / 100.0, "m"))
    if how == "array":
        return (q(k, "keV"), q(v, "cm"))
    if how == "tuple":
        return ((q(k, "keV"), q(v, "cm")),)
    if how == "lut":
        o = LUT(default=np.nan)
        o.add(q(k, "keV"), q(v, "cm"))
        return (o,)
    return ()


def apply_model(m, op):
    name, k, v, how = op
    m = dict(m)
    if name == "clear":
        return {}
    if name == "replace":
        for a, b in zip(k, v):
            m[a] = b
    else:
        for a, b in zip(k, v):
            m[a] = m.get(a, 0) + b
    return m


def interp(m, x, kind):
    ks = sorted(m)
    if len(ks) == 1:
        return m[ks[0]]
    if x <= ks[0]:
        return m[ks[0]]
    if x >= ks[-1]:
        return m[ks[-1]]
    for a, b in zip(ks, ks[1:]):
        if a <= x <= b:
            if x == a:
                return m[a]
            if x == b:
                return m[b]
            if kind == "linear":
                return m[a] + (m[b] - m[a]) * (x - a) / (b - a)
            if kind in ("previous", "zero"):
                return m[a]
            if kind == "nearest":
                return m[a] if x - a <= b - x else m[b]


PTS = [0.25, 0.5, 0.75, 1, 1.5, 1.75, 2, 2.25, 2.5, 3, 3.25, 4, 5]


def observe(t, m, kind):
    """Compare everything observable, returns an error text or None"""
    if t.isempty() != (not m):
        return "isempty() is %s with content %s" % (t.isempty(), m)
    if m:
        ks = sorted(m)
        x = t.x.to("keV").magnitude
        y = t.y.to("cm").magnitude
        if len(x) != len(ks) or not np.allclose(x, ks):
            return "keys are %s, expected %s" % (x, ks)
        if not np.allclose(y, [m[k] for k in ks]):
            return "values are %s, expected %s" % (y, [m[k] for k in ks])
        if len(t) != len(ks):
            return "len is %s, expected %s" % (len(t), len(ks))
        pairs = [(a.to("keV").magnitude, b.to("cm").magnitude) for a, b in t]
        if not np.allclose(pairs, [(k, m[k]) for k in ks]):
            return "iteration gives %s" % pairs
        pairs = [(a.magnitude, b.magnitude) for a, b in t.zip("eV", "m")]
        if not np.allclose(pairs, [(k * 1000, m[k] / 100.0) for k in ks]):
            return "zip gives %s" % pairs
        exp = [interp(m, p, kind) for p in PTS]
        got = t(q(PTS, "keV"))
        if not np.allclose(got.to("cm").magnitude, exp):
            return "look-up at %s gives %s, expected %s" % (PTS, got.to("cm").magnitude, exp)
        for p, e in zip((1, 2.25, 3), (exp[3], exp[7], exp[9])):
            g = t(q(p * 1000, "eV")).to("cm").magnitude
            if np.ndim(g) != 0 or not np.isclose(g, e):
                return "scalar look-up at %s keV gives %r, expected %s" % (p, g, e)
    else:
        got = t(q([1, 2], "keV")) if False else t(1)
        d = t.default.magnitude
        if not (np.isnan(d) and np.isnan(got.magnitude) or d == got.magnitude):
            return "empty table gives %s, default %s" % (got, t.default)
    t2 = jsonpickle.loads(jsonpickle.dumps(t))
    if not (t2 == t) or t2 != t:
        return "restored table is not equal"
    return None


def run_history(init, hist, kind, ctx=None):
    t = LUT(default=np.nan, kind=kind)
    m = {}
    if init:
        t.add(q(init[0], "keV"), q(init[1], "cm"))
        m = dict(zip(*init))
    for i, op in enumerate(hist):
        before = None
        a = args(op)
        if op[0] == "add":
            t.add(*a)
        elif op[0] == "replace":
            t.replace(*a)
        elif op[0] == "iplus":
            t += a[0]
        elif op[0] == "plus":
            old, mold = t, m
            t = t + a[0]
            if i == len(hist) - 1:
                err = observe(old, mold, kind)
                if err:
                    return m, "operand of + was changed: " + err
        elif op[0] == "clear":
            t.clear(default=np.nan)
        m = apply_model(m, op)
        if op[3] == "lut" and i == len(hist) - 1:
            o = a[0]
            if list(o.x.to("keV").magnitude) != sorted(op[1]):
                return m, "argument table was changed"
    return m, observe(t, m, kind)


def shards(tier):
    out = [{"numbers": 1}]
    kinds = ["linear"] if tier == "quick" else ["linear", "nearest", "previous", "zero"]
    for kind in kinds:
        for i in range(len(INITS)):
            depth = 3 if tier == "quick" or kind != "linear" else 4
            for j in range(len(OPS)):
                out.append({"kind": kind, "init": i, "first": j, "depth": depth})
    if tier == "quick":
        for kind in ["nearest", "previous"]:
            for i in range(len(INITS)):
                for j in range(len(OPS)):
                    out.append({"kind": kind, "init": i, "first": j, "depth": 2})
    return out


def run_shard(s, ctx):
    if "numbers" in s:
        return numbers(ctx)
    kind = s["kind"]
    for n in range(s["depth"]):
        for rest in itertools.product(range(len(OPS)), repeat=n):
            h = (s["first"],) + rest
            one(ctx, kind, s["init"], h)


def one(ctx, kind, i, h):
    hist = [OPS[j] for j in h]
    ctx.current = (kind, i, hist)
    try:
        m, err = run_history(INITS[i], hist, kind)
    except Exception as e:
        m, err = None, "raises %r" % e
    ctx.trans()
    ctx.trace()
    if m is not None:
        ctx.state((kind, sorted(m.items())))
        ctx.outcome(len(m))
    if len(hist) == 3:
        ctx.sample({"kind": kind, "initial": INITS[i], "history": hist, "model": sorted(m.items()) if m else None})
    if err:
        ctx.fail("history:%s:%s:%s" % (kind, i, h), {"kind": kind, "init": i, "history": h}, "%s\nhistory %s from %s" % (err, hist, INITS[i]))


NUMTYPES = [("int", int), ("float", float), ("int32", np.int32), ("float32", np.float32)]
NUMKEYS = {"int": [2, 1, 4], "int32": [2, 1, 4], "float": [2.0, 0.5, 4.0], "float32": [2.0, 0.5, 4.0]}
NUMVALS = {"int": [7, -3, 10], "int32": [7, -3, 10], "float": [2.5, -0.25, 10.0], "float32": [2.5, -0.25, 10.0]}
NUMPTS = [0, 1, 2, 3, 4, 5]


def numbers_one(ctx, kt, vt, n, how, unit, split):
    """Tables of plain numbers: the type of keys and values does not matter"""
    types = dict(NUMTYPES)
    keys = NUMKEYS[kt][:n]
    vals = NUMVALS[vt][:n]
    ctx.current = {"numbers": [kt, vt, n, how, unit, split]}

    def conv(x, t):
        t = types[t]
        if how == "list":
            x = [t(a) for a in x]
        elif how == "array":
            x = np.array([t(a) for a in x], dtype=t)
        else:
            x = t(x[0])
        return units.Quantity(x, unit) if unit else x

    def check():
        t = LUT(default=np.nan)
        if split:
            for k, v in zip(keys, vals):
                t.add(conv([k], kt), conv([v], vt))
        else:
            t.add(conv(keys, kt), conv(vals, vt))
        m = dict(zip(keys, vals))
        u = unit or "dimensionless"
        ks = sorted(m)
        if not np.allclose(t.x.to(u).magnitude, ks) or not np.allclose(t.y.to(u).magnitude, [m[k] for k in ks]):
            return "content is %s" % list(t)
        for pt, ptype in NUMTYPES + [("half", float)]:
            pts = [p + 0.5 for p in NUMPTS] if pt == "half" else NUMPTS
            exp = [interp(m, p, "linear") for p in pts]
            arr = np.array(pts, dtype=ptype)
            got = t(units.Quantity(arr, u) if unit else arr).to(u).magnitude
            if not np.allclose(got, exp):
                return "look-up at %s (%s) gives %s, expected %s" % (pts, pt, got, exp)
            lst = [ptype(p) for p in pts]
            got = t(units.Quantity(lst, u) if unit else lst).to(u).magnitude
            if not np.allclose(got, exp):
                return "look-up at list %s (%s) gives %s, expected %s" % (pts, pt, got, exp)
            for p, e in zip(pts, exp):
                p = ptype(p)
                got = t(units.Quantity(p, u) if unit else p).to(u).magnitude
                if np.ndim(got) or not np.isclose(got, e):
                    return "look-up at %r (%s) gives %r, expected %s" % (p, pt, got, e)
        return None

    try:
        err = check()
    except Exception as e:
        err = "raises %r" % e
    ctx.trans()
    ctx.trace()
    ctx.state(("numbers", kt, vt, n, how, unit, split))
    if err:
        ctx.fail("numbers:%s:%s:%s:%s:%s:%s" % (kt, vt, n, how, unit, split), {"numbers": [kt, vt, n, how, unit, split]}, err)


def numbers(ctx):
    for kt, _ in NUMTYPES:
        for vt, _ in NUMTYPES:
            for n in (1, 2, 3):
                for how in ("list", "array", "scalar"):
                    if how == "scalar" and n > 1:
                        for unit in (None, "keV"):
                            numbers_one(ctx, kt, vt, n, how, unit, True)
                        continue
                    for unit in (None, "keV"):
                        for split in (False, True):
                            numbers_one(ctx, kt, vt, n, how, unit, split)


def replay(case, ctx):
    if "numbers" in case:
        return numbers_one(ctx, *case["numbers"])
    one(ctx, case["kind"], case["init"], tuple(case["history"]))
