"""C08: all small structured values, hashed and compared pairwise, in several processes."""

import collections
import copy
import itertools
import json
import math
import os
import subprocess
import sys

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all values built from 22 atoms (numbers, strings, bytes, None, quantities; native and numpy types), lists, tuples, arrays, sets, dictionaries, ordered dictionaries and objects with up to 2 elements nested up to 2 levels (3 for a small set of atoms), lists of up to 4; every pair of values compared; dictionaries and sets in every insertion order; 3 further processes with other string hash seeds",
    "thorough": "up to 3 elements per container, 3 levels of nesting, 8 processes",
}
ASSUMPTIONS = [
    "containers of another type with the same elements (list, tuple, array; set; empty containers; dictionary and ordered dictionary; array of dimension zero and its item) may or may not have the same hash",
    "numbers are equal when their shortest text forms are (float32 and float64 of 1.3)",
    "dictionary keys that are text and bytes of the same characters do not occur in one dictionary",
]
TECHNIQUE = "bounded-exhaustive enumeration of structured values; all pairs decided by comparing the partition by hash with the partition by canonical value; re-executed in processes with different string hashing"


class Thing(object):
    """Object with a state"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Thing(%r)" % (self.__dict__,)

    def __eq__(self, other):
        return isinstance(other, Thing) and self.__dict__ == other.__dict__

    def __hash__(self):
        return 1


class Other(Thing):
    pass


def q(m, u):
    from spectrocrunch.patch.pint import ureg

    return ureg.Quantity(m, u)


ATOMS = [None, True, 0, 1, -1, 2, 0.5, 1.5, 1e300, 10**20, "a", "b", "1", "", "number", b"c", 1j]
NPATOMS = [np.int32(1), np.float32(0.5), np.float64(2), np.str_("a"), np.uint8(0), np.bool_(True), 1 + 0j, np.complex64(1j), 1.0, np.float32(1e10), float("inf"), "ä"]
# numbers and strings that are close to each other
CLOSE = [0.1 + 0.2, 0.3, 1 + 2.0**-52, 1 - 2.0**-53, 1 + 1e-12, 1 + 1e-6, 10**15, 10**15 + 1, 2**53, 2**53 + 1, 2**64, 2**64 + 1, -(2**63), 10**20 + 1, 1e15 + 0.5, 123456789.125, 123456789.126, 1e-300, 1e-310, 5e-324, -0.5, -1e-300, 1e22, 1e23, 3, 30, 300, 0.3 + 1j, 0.1 + 0.2 + 1j, float("-inf"), 1.25e-7, 1.25e-8]
CLOSE += ["a ", " a", "A", "a\n", "aa", "a" * 1000, "a" * 1000 + "b", "b" + "a" * 1000, "0", "1.0", "0.5", "None", "True", "e\u0301", "\u00e9", b"a ", "[]", "a, b", "m"]
SMALL = [None, 1, 0.5, "a", "b"]


def quantities():
    return [q(1, "m"), q(2, "m"), q(1, "s"), q(1, "cm"), q(100, "cm"), q(0.5, "m"), q(np.array([1, 2]), "m"), q(np.array([1, 2]), "s"), q(np.array([2, 1]), "m")]


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def containers(items, n):
    """All containers of up to n items"""
    for k in range(n + 1):
        for c in itertools.product(items, repeat=k):
            yield list(c)
            yield tuple(c)
            if k and all(hashable(x) for x in c):
                try:
                    if len(set(c)) == k:
                        yield set(c)
                        yield frozenset(c)
                except TypeError:
                    pass


def dicts(keys, values, n):
    for k in range(n + 1):
        for ks in itertools.permutations(keys, k):
            if len(set(ks)) != k:
                continue
            for vs in itertools.product(values, repeat=k):
                yield dict(zip(ks, vs))
                if k:
                    yield collections.OrderedDict(zip(ks, vs))


def arrays(n):
    for vals in ([0, 1, 2], [0.5, 1.5], ["a", "b"], [True, False]):
        for k in range(1, n + 1):
            for c in itertools.product(vals, repeat=k):
                yield np.array(c)
                if k == 2:
                    yield np.array([c, c[::-1]])
                    yield np.array([c])
                    yield np.array(c).reshape(2, 1)
    yield np.array([0, 1, 2], dtype=np.int8)
    yield np.array([0, 1, 2], dtype=np.float32)
    yield np.array(1)
    yield np.array("a")
    yield np.zeros((0,))


def things(values):
    for v in values:
        yield Thing(a=v)
        yield Other(a=v)
        yield Thing(b=v)
    for v, w in itertools.product(values[:6], repeat=2):
        yield Thing(a=v, b=w)
        yield Thing(b=w, a=v)


def universe(thorough=False):
    """All values, in a fixed order"""
    n = 3 if thorough else 2
    atoms = ATOMS + NPATOMS
    out = list(atoms) + quantities()
    level1 = list(containers(atoms if not thorough else ATOMS, 2)) + list(containers(SMALL, n + 1))
    level1 += list(dicts(["a", "b", 1, 0.5, None, ("a", 1), "1"], SMALL + [True, 2, "1"], 2))
    level1 += list(dicts(["a", "b", "c"], [1, "a", None], 3))
    level1 += list(arrays(3))
    level1 += list(things(SMALL + [[1, 2], {"a": 1}, {"b", "a"}, Thing(a=1)]))
    out += level1
    out += CLOSE
    for wrap in (lambda x: [x], lambda x: {"k": x}, lambda x: {x: 1}, lambda x: {x}, lambda x: ["a", (x, 1)], lambda x: {"k": {"l": [x]}}):
        out += [wrap(x) for x in CLOSE]
    out += [np.array([x, 1]) for x in CLOSE[:4]] + [q(x, "m") for x in CLOSE[:23] if not isinstance(x, int) or x < 2**60]
    out += [Thing(a=x) for x in CLOSE[:6]]
    s1 = list(containers(SMALL[1:4], 2)) + list(dicts(["a", "b"], [1, "a"], 2)) + list(arrays(2))[:8] + [q(1, "m"), q(2, "m")]
    out += list(containers(SMALL[1:4:2] + s1, 2)) if not thorough else list(containers(SMALL[1:4] + s1, 2))
    out += list(dicts(["a", "b"], s1, 2))
    s2 = list(containers([1, "a"], 2)) + list(dicts(["a"], [1, "a"], 1))
    s3 = list(containers(s2[:: 1 if thorough else 2], 2)) + list(dicts(["a", "b"], s2, 1))
    out += list(containers(s3, 1))
    out += list(dicts(["a", "b"], s3, 1))
    out += [(x, y) for x in s3[:40] for y in s3[:40]]
    return out


# ---------------------------------------------------------------- canonical value


def number(x):
    try:
        if isinstance(x, (complex, np.complexfloating)):
            if x.imag == 0:
                x = x.real
            else:
                return "number", str(complex(x))
        if float(x) == int(x):
            return "number", str(int(x))
    except (OverflowError, ValueError):
        pass
    return "number", str(x)


def canon(x):
    """What the value is (for equality)"""
    from pint import Quantity

    if x is None:
        return ("none",)
    if isinstance(x, (str, bytes)):
        return "string", x if isinstance(x, bytes) else str(x).encode("utf-8")
    if isinstance(x, (bool, int, float, complex, np.number, np.bool_)):
        return number(x)
    if isinstance(x, Quantity):
        if isinstance(x.magnitude, np.ndarray):
            return "seq", tuple(canon(y) for y in x)
        return "quantity", canon(x.magnitude), str(x.units)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return "array0", canon(x.item())
        return ("seq", tuple(canon(y) for y in x)) if len(x) else ("empty array",)
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(canon(y) for y in x)) if len(x) else ("empty " + type(x).__name__,)
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(canon, x), key=repr))) if len(x) else ("empty " + type(x).__name__,)
    if isinstance(x, collections.OrderedDict):
        return "odict", tuple((canon(k), canon(v)) for k, v in x.items())
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((canon(k), canon(v)) for k, v in x.items()), key=repr))) if len(x) else ("empty dict",)
    if isinstance(x, Thing):
        return "object", type(x).__name__, canon(dict(x.__dict__))
    raise TypeError(type(x))


def compat(a, b, flat=False):
    """May have the same hash: equal up to the type of containers (flat: and a dictionary is
    taken for the list of its keys and values, a quantity for [value, unit])"""
    if a == b:
        return True
    ta, tb = a[0], b[0]
    if ta.startswith("empty") and tb.startswith("empty"):
        return True
    if ta == "array0":
        return compat(("seq", (a[1],)), b, flat)
    if tb == "array0":
        return compat(a, ("seq", (b[1],)), flat)
    if ta in ("seq", "set") and tb in ("seq", "set"):
        if len(a[1]) != len(b[1]):
            return False
        if ta == tb == "seq":
            return all(compat(x, y, flat) for x, y in zip(a[1], b[1]))
        return any(all(compat(x, y, flat) for x, y in zip(a[1], p)) for p in itertools.permutations(b[1]))
    if ta in ("dict", "odict") and tb in ("dict", "odict"):
        if len(a[1]) != len(b[1]):
            return False
        perms = [b[1]] if ta == tb == "odict" else itertools.permutations(b[1])
        return any(all(compat(x[0], y[0], flat) and compat(x[1], y[1], flat) for x, y in zip(a[1], p)) for p in perms)
    if ta == tb == "quantity":
        return a[2] == b[2] and compat(a[1], b[1], flat)
    if ta == tb == "object":
        return a[1] == b[1] and compat(a[2], b[2], flat)
    if flat:
        return any(compat(x, y, flat) for x in flats(a) for y in flats(b) if (x, y) != (a, b))
    return False


def flats(c):
    if c[0] in ("dict", "odict"):
        for p in itertools.permutations(c[1]) if c[0] == "dict" else [c[1]]:
            yield "seq", tuple(k for k, _ in p) + tuple(v for _, v in p)
    elif c[0] == "quantity":
        yield "seq", (c[1], ("string", c[2].encode()))
    elif c[0] in ("seq", "set"):
        yield c


def differ(a, b):
    """None if equal hashes are fine for these values, otherwise the reason"""
    if compat(a, b):
        return None
    return "flat" if compat(a, b, True) else "collision"


# ---------------------------------------------------------------- reordering and retyping


def reorders(x):
    """The same value with other insertion orders"""
    if isinstance(x, collections.OrderedDict):
        return
    if isinstance(x, dict) and len(x) > 1:
        for p in itertools.permutations(x.items()):
            yield dict(p)
        # history: added and removed
        y = {"zz": 0}
        y.update(x)
        del y["zz"]
        yield y
    if isinstance(x, (set, frozenset)) and len(x) > 1:
        for p in itertools.permutations(x):
            y = set()
            for z in p:
                y.add(z)
            yield y
            y = set(range(1000, 1040))
            for z in p:
                y.add(z)
            for z in range(1000, 1040):
                y.discard(z)
            yield y
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            for z in reorders(y):
                r = list(x)
                r[i] = z
                yield r
    if isinstance(x, dict):
        for k, y in x.items():
            for z in reorders(y):
                r = dict(x)
                r[k] = z
                yield r


def retype(x, to):
    """The same value with other number and string types"""
    if isinstance(x, bool):
        return np.bool_(x) if to == "np" else (1 if x else 0)
    if isinstance(x, int) and not isinstance(x, np.generic):
        if abs(x) > 2**31:
            return x
        return np.int64(x) if to == "np" else float(x)
    if isinstance(x, float) and not isinstance(x, np.generic):
        return np.float64(x)
    if isinstance(x, complex):
        return np.complex128(x)
    if isinstance(x, str):
        return np.str_(x) if to == "np" else x.encode("utf-8")
    if isinstance(x, list):
        return [retype(y, to) for y in x]
    if type(x) is tuple:
        return tuple(retype(y, to) for y in x)
    if type(x) is set:
        return {retype(y, to) for y in x}
    if type(x) is dict:
        return {retype(k, to): retype(v, to) for k, v in x.items()}
    return x


def hashof(x):
    from spectrocrunch.utils import hashing

    h = hashing.calchash(x)
    return h.decode("ascii")


def text(x):
    """Text of a value which does not depend on the order of sets"""
    return "%s:%s" % (type(x).__name__, str(canon(x)) if not isinstance(x, Thing) else "Thing" + str(canon(x)))


def show(x):
    return "%s %r" % (type(x).__name__, x)


# ----------------------------------------------------------------

NP = 16


def shards(tier):
    out = [{"what": "partition", "thorough": tier == "thorough"}]
    out += [{"what": "process", "seed": s, "thorough": tier == "thorough"} for s in range(1, 9 if tier == "thorough" else 4)]
    out += [{"what": "variants", "part": p, "thorough": tier == "thorough"} for p in range(NP)]
    return out


def worker_init():
    import warnings

    warnings.simplefilter("ignore")
    import spectrocrunch.utils.hashing  # noqa


def partition(ctx, values):
    """Every pair: equal hash if and only if equal value"""
    from spectrocrunch.utils import hashing

    byhash, bycanon = {}, {}
    for i, x in enumerate(values):
        if i % 500 == 0:
            ctx.tick(500, "values")
        before = (repr(x), copy.deepcopy(x))
        h = hashof(x)
        if canon(x) != canon(before[1]):
            ctx.fail("modified", {"value": show(x)}, "hashing %s changes it to %s" % (before[0], repr(x)))
        if hashof(x) != h or hashof(before[1]) != h:
            ctx.fail("unstable", {"value": show(x)}, "hash of %s changes from call to call or with a copy" % show(x))
        if not hashing.hashequal(x, before[1]):
            ctx.fail("hashequal", {"value": show(x)}, "%s is not equal to its copy" % show(x))
        c = canon(x)
        ctx.state(c)
        byhash.setdefault(h, {}).setdefault(c, x)
        bycanon.setdefault(c, {}).setdefault(h, x)
    ctx.trans(len(values))
    ctx.trace(len(values))
    pairs = len(bycanon) * (len(bycanon) - 1) // 2
    ctx.tick(pairs, "pairs of different values")
    for c, hs in bycanon.items():
        if len(hs) > 1:
            a, b = list(hs.values())[:2]
            ctx.fail("separates equal:%s" % c[0], {"value": show(a), "other": show(b)}, "%s and %s have different hashes" % (show(a), show(b)))
    for h, cs in byhash.items():
        if len(cs) > 1:
            cs = list(cs.items())
            for (c, a), (d, b) in itertools.combinations(cs, 2):
                why = differ(c, d)
                ctx.outcome("same hash: %s" % why)
                if why == "flat":
                    ctx.fail("a dictionary or quantity hashes like the list of its parts", {"value": show(a), "other": show(b)}, "%s and %s have the same hash" % (show(a), show(b)))
                elif why:
                    ctx.fail("collision:%s:%s" % (c[0], d[0]), {"value": show(a), "other": show(b)}, "%s and %s have the same hash" % (show(a), show(b)))
    ctx.sample({"values": len(values), "hashes": len(byhash)})


def variants(ctx, values, part):
    for i, x in enumerate(values):
        if i % NP != part:
            continue
        h = hashof(x)
        for y in reorders(x):
            ctx.tick(1, "reordered values")
            if hashof(y) != h:
                ctx.fail("order", {"value": show(x), "other": show(y)}, "%s and %s have different hashes" % (show(x), show(y)))
                break
        for to in ("np", "other"):
            y = retype(x, to)
            ctx.tick(1, "values with other types")
            if hashof(y) != h:
                ctx.fail("type:%s" % ("np" if to == "np" else "native"), {"value": show(x), "other": show(y)}, "%s and %s have different hashes" % (show(x), show(y)))
        ctx.trans(1)


def process(ctx, seed, thorough):
    """Hashes of the same values in another process"""
    code = "import sys; from mc.checks import c08; c08.dump(%r)" % bool(thorough)
    env = dict(os.environ, PYTHONHASHSEED=str(seed * 7919))
    r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-2000:])
    other = json.loads(r.stdout.splitlines()[-1])
    values = universe(thorough)
    ctx.tick(len(values), "values in another process")
    if len(values) != len(other):
        raise RuntimeError("different universe")
    for x, h in zip(values, other):
        if hashof(x) != h:
            ctx.fail("process", {"value": show(x), "seed": seed}, "hash of %s depends on the process" % show(x))
            return
    ctx.trace(1)


def dump(thorough):
    import warnings

    warnings.simplefilter("ignore")
    print(json.dumps([hashof(x) for x in universe(thorough)]))


def run_shard(shard, ctx):
    ctx.current = {"shard": shard}
    if shard["what"] == "process":
        return process(ctx, shard["seed"], shard["thorough"])
    values = universe(shard["thorough"])
    if shard["what"] == "partition":
        partition(ctx, values)
    else:
        variants(ctx, values, shard["part"])


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if "seed" in case:
        return process(ctx, case["seed"], False)
    values = [x for x in universe(True) if show(x) in (case["value"], case.get("other"))]
    values += [x for x in universe(False) if show(x) in (case["value"], case.get("other"))]
    for x in list(values):
        values += [y for y in reorders(x) if show(y) == case.get("other")]
        values += [retype(x, "np"), retype(x, "other")]
    partition(ctx, values)
    for p in range(NP):
        variants(ctx, values, p)
