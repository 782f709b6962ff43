"""C24: list, region and conversion helpers on every small input."""

import itertools
import math

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all lists of up to 5 elements of an alphabet of 3 with companion lists, all nested lists of up to 4 leaves, all boolean and integer selections, all positions and shifts; all regions with limits -7..7 of sizes 0..5 and of pairs of sizes; all sets of up to 4 intervals with limits 0..4 in every order; all integers -600..600 in 6 number bases and all digit strings of up to 3; 2- and 3-step histories of size-limited dictionaries and caches; every tiling of arrays up to 3x3",
    "thorough": "lists of up to 7, 5 leaves, 5 intervals, -5000..5000, 5-step histories",
}
ASSUMPTIONS = [
    "a region that starts behind the end of the array only has to be clipped to a region inside the array",
    "rolling by a negative number only has to give a rotation",
]


class Fail(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def same(a, b):
    return type(a) is type(b) and a == b


class S(str):
    """Elements which compare equal but are not the same"""


def pairs(maxlen):
    for n in range(maxlen + 1):
        for l1 in itertools.product((0, 1, 2), repeat=n):
            yield list(l1)


def check_two(l1):
    from spectrocrunch.utils import listtools as lt

    n = len(l1)
    orig = list(l1)
    for kind in ("id", "num", "str"):
        l2 = [object() for _ in l1] if kind == "id" else [3**i for i in range(n)] if kind == "num" else ["x%d" % i for i in range(n)]
        l2[:] = l2
        keep = list(l2)
        # sort: by the first list only, stable
        idx = sorted(range(n), key=lambda i: l1[i])
        s1, s2 = lt.sort2lists(l1, l2)
        need(list(s1) == [l1[i] for i in idx] and len(s2) == n and all(a is l2[i] for a, i in zip(s2, idx)), "sort2lists(%r, ..) gives %r, %r", l1, s1, s2)
        # unique: first occurrence
        first = [i for i in range(n) if l1[i] not in l1[:i]]
        u1, u2 = lt.unique2lists(l1, l2)
        need(list(u1) == [l1[i] for i in first] and len(u2) == len(first) and all(a is l2[i] for a, i in zip(u2, first)), "unique2lists(%r) gives %r, %r", l1, u1, u2)
        need(type(s1) is list and type(s2) is list and type(u1) is list and type(u2) is list, "lists are expected")
        if kind == "num":
            a1, a2 = lt.unique2lists(l1, l2, add=True)
            need(a1 == [l1[i] for i in first] and a2 == [sum(l2[j] for j in range(n) if l1[j] == l1[i]) for i in first], "unique2lists(%r, %r, add=True) gives %r, %r", l1, l2, a1, a2)
            k, v = lt.sumrepeats(l1, l2)
            need(dict(zip(k, v)) == {l1[i]: sum(l2[j] for j in range(n) if l1[j] == l1[i]) for i in first} and len(list(k)) == len(first) == len(list(v)), "sumrepeats(%r, %r) gives %r, %r", l1, l2, k, v)
        need(l1 == orig and all(a is b for a, b in zip(l2, keep)), "the arguments are modified")
    if n <= 4:
        for vals in itertools.product((-1, 0, 1), repeat=n):
            l2 = list(vals)
            first = [i for i in range(n) if l1[i] not in l1[:i]]
            sums = [sum(l2[j] for j in range(n) if l1[j] == l1[i]) for i in first]
            a1, a2 = lt.unique2lists(l1, l2, add=True)
            need(list(a1) == [l1[i] for i in first] and list(a2) == sums, "unique2lists(%r, %r, add=True) gives %r, %r", l1, l2, a1, a2)
            k, v = lt.sumrepeats(l1, l2)
            need(dict(zip(k, v)) == dict(zip([l1[i] for i in first], sums)) and len(list(k)) == len(first), "sumrepeats(%r, %r) gives %r, %r", l1, l2, k, v)
            s1, s2 = lt.sort2lists(l2, l1)
            idx = sorted(range(n), key=lambda i: l2[i])
            need(list(s1) == [l2[i] for i in idx] and list(s2) == [l1[i] for i in idx], "sort2lists(%r, %r) gives %r, %r", l2, l1, s1, s2)
    need(list(lt.unique_everseen(l1)) == [l1[i] for i in range(n) if l1[i] not in l1[:i]], "unique_everseen(%r)", l1)
    need(list(lt.unique_everseen(l1, key=lambda x: x // 2)) == [l1[i] for i in range(n) if l1[i] // 2 not in [y // 2 for y in l1[:i]]], "unique_everseen with key(%r)", l1)
    need(list(lt.filterfalse(None, l1)) == [x for x in l1 if not x], "filterfalse(None, %r)", l1)
    need(list(lt.filterfalse(lambda x: x > 1, l1)) == [x for x in l1 if not x > 1], "filterfalse(%r)", l1)
    for v in (0, 1, 2):
        need(lt.where(l1, lambda x: x == v) == [i for i in range(n) if l1[i] == v], "where(%r, %r)", l1, v)
    need(lt.length(l1) == n and lt.length(tuple(l1)) == n and lt.length(np.array(l1)) == n and lt.length(5) == 1 and lt.length(None) == 1, "length")
    need(lt.aslist(l1) == l1 and lt.aslist(tuple(l1)) == l1 and lt.aslist(5) == [5] and lt.aslist(iter(l1)) == l1, "aslist")


def check_order(n):
    """Re-ordering of a list of n different elements"""
    from spectrocrunch.utils import listtools as lt

    count = 0
    base = list("abcdefgh"[:n])
    for i in range(n):
        for j in range(n):
            count += 2
            lst = list(base)
            r = lt.swap(lst, i, j)
            want = list(base)
            want[i], want[j] = base[j], base[i]
            need(r is lst and lst == want, "swap(%r, %d, %d) gives %r", base, i, j, r)
            lst = list(base)
            r = lt.move(lst, i, j)
            rest = base[:i] + base[i + 1 :]
            need(r is lst and lst == rest[:j] + [base[i]] + rest[j:], "move(%r, %d, %d) gives %r", base, i, j, r)
    for s in range(-2 * n - 1, 2 * n + 2):
        count += 1
        lst = list(base)
        r = lt.roll(lst, s)
        k = s % n if n else 0
        if s >= 0:
            need(r == base[k:] + base[:k], "roll(%r, %d) gives %r", base, s, r)
        else:
            need(any(r == base[q:] + base[:q] for q in range(max(n, 1))), "roll(%r, %d) gives %r", base, s, r)
        need(lst == base, "roll modifies its argument")
    for b in itertools.product((True, False), repeat=n):
        count += 1
        want = [x for x, y in zip(base, b) if y]
        wantn = [x for x, y in zip(base, b) if not y]
        for arr in (list(b), tuple(b), np.array(b, dtype=bool)):
            need(lt.listadvanced_bool(base, arr) == want and lt.listadvanced_bool(base, arr, bnot=True) == wantn, "listadvanced_bool(%r, %r)", base, arr)
        if n:
            need(lt.listadvanced(base, list(b)) == want, "listadvanced(%r, %r) gives %r", base, b, lt.listadvanced(base, list(b)))
    for k in range(min(n, 3) + 1):
        for ind in itertools.product(range(-n, n), repeat=k):
            count += 1
            want = [base[i] for i in ind]
            for arr in (list(ind), tuple(ind), np.array(ind, dtype=int)):
                need(lt.listadvanced(base, arr) == want and lt.listadvanced_int(base, arr) == want, "listadvanced(%r, %r)", base, arr)
    return count


def trees(leaves, depth):
    """All nested lists with this number of leaves"""
    if leaves == 1:
        yield "L"
        if depth:
            for t in trees(1, depth - 1):
                yield [t]
        return
    if depth == 0:
        return
    for k in range(1, leaves + 1):
        for parts in compositions(leaves, k):
            if k == 1 and parts[0] == leaves and depth < 2:
                continue
            for sub in itertools.product(*[list(trees(p, depth - 1)) for p in parts]):
                yield list(sub)


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest


def fill(t, it, types):
    if isinstance(t, list):
        typ = next(types)
        sub = [fill(x, it, types) for x in t]
        if typ is np.ndarray and all(isinstance(x, int) for x in sub):
            return np.array(sub)
        if typ == "gen":
            return (x for x in sub)
        return sub if typ is np.ndarray else typ(sub)
    return next(it)


def check_flatten(leaves, depth):
    from spectrocrunch.utils import listtools as lt

    count = 0
    for t in trees(leaves, depth):
        for typs in ((list,), (tuple,), (list, tuple), (np.ndarray,), ("gen",), (list, "gen"), (tuple, np.ndarray)):
            for vals in ((0, 1, 2, 3, 4), ("ab", "", "c", "de", "f"), (b"ab", 1.5, None, "x", 0)):
                vals = vals[:leaves]
                lst = fill(t, iter(vals), itertools.cycle(typs))
                count += 1
                got = list(lt.flatten(lst))
                need(len(got) == leaves and all(a == b and (type(a) is type(b) or isinstance(a, np.integer)) for a, b in zip(got, vals)), "flatten(%s of %r) gives %r", t, vals, got)
        if leaves:
            arr = lt.numpy_flatten(fill(t, iter(range(leaves)), itertools.cycle((list,))))
            need(isinstance(arr, np.ndarray) and arr.tolist() == list(range(leaves)), "numpy_flatten")
    # empty containers vanish
    for e in ([], (), [[]], [[], ()], [[[]], []]):
        need(list(lt.flatten(e)) == [] and list(lt.flatten([e, 1, e])) == [1], "flatten of empty lists")
    return count


def check_clip(n, lim):
    from spectrocrunch.utils.roi import cliproi

    count = 0
    opts = list(range(-lim, lim + 1)) + [None]
    for a in opts:
        for b in opts:
            count += 1
            r = cliproi((n,), ((a, b),))
            need(len(r) == 1 and len(r[0]) == 2, "cliproi(%d, %s, %s) gives %r", n, a, b, r)
            a2, b2 = r[0]
            need(0 <= a2 <= n and 0 <= b2 <= n, "cliproi(%d, %s, %s) gives %r, outside", n, a, b, r)
            if a is None or a < n:
                need(list(range(n))[a2:b2] == list(range(n))[a:b], "cliproi((%d,), ((%s, %s),)) gives %r, covers %r instead of %r", n, a, b, r, list(range(n))[a2:b2], list(range(n))[a:b])
            # several dimensions are independent
            for m, other in ((3, (1, None)), (2, (-1, 5))):
                r2 = cliproi((m, n), (other, (a, b)))
                r3 = cliproi((n, m), ((a, b), other))
                one = cliproi((m,), (other,))
                need([list(x) for x in r2] == [list(one[0]), list(r[0])] and [list(x) for x in r3] == [list(r[0]), list(one[0])], "cliproi of two dimensions: %r, %r", r2, r3)
    for s, r in (((3,), ()), ((3, 3), ((0, 1),)), ((3,), ((0, 1), (0, 1)))):
        try:
            cliproi(s, r)
        except ValueError:
            pass
        else:
            raise Fail("cliproi(%r, %r) is not refused" % (s, r))
    return count


def check_merge(ivs):
    from spectrocrunch.utils.roi import mergeroi1d

    orig = [tuple(i) for i in ivs]
    got = [tuple(i) for i in mergeroi1d(ivs)]
    need([tuple(i) for i in ivs] == orig, "the argument is modified")
    # half points decide open gaps
    pts = [k / 4.0 for k in range(-4, 30)]
    cover = lambda l, p: any(a <= p <= b for a, b in l)  # noqa
    for p in pts:
        need(cover(got, p) == cover(orig, p), "mergeroi1d(%r) gives %r: point %s", orig, got, p)
    for (a, b), (c, d) in zip(got, got[1:]):
        need(b < c, "mergeroi1d(%r) gives %r: not sorted or not merged", orig, got)


DIGS = [None, list("01"), list("0123456789"), list("abc"), [chr(97 + i) for i in range(26)], list("zyx9")]


def check_base(k, lim):
    from spectrocrunch.utils.integerbase import integerbase

    o = integerbase() if DIGS[k] is None else integerbase(digs=list(DIGS[k]))
    digs = DIGS[k] or list("0123456789ABCDEF")
    count, seen = 0, {}
    for x in range(-lim, lim + 1):
        count += 1
        s = o.int2base(x)
        need(isinstance(s, str) and s not in seen, "int2base(%d) = %r = int2base(%s)", x, s, seen.get(s))
        seen[s] = x
        need(o.base2int(s) == x, "base2int(int2base(%d)) is %r", x, o.base2int(s))
        body = s[1:] if x < 0 else s
        need((s[0] == "-") == (x < 0) and all(c in digs for c in body) and (len(body) == 1 or body[0] != digs[0]), "int2base(%d) gives %r", x, s)
        v = 0
        for c in body:
            v = v * len(digs) + digs.index(c)
        need(v == abs(x), "int2base(%d) gives %r", x, s)
    for n in range(1, 4):
        if len(digs) ** n > 20000:
            continue
        for t in itertools.product(digs, repeat=n):
            count += 1
            v = 0
            for c in t:
                v = v * len(digs) + digs.index(c)
            need(o.base2int("".join(t)) == v, "base2int(%r) gives %r", "".join(t), o.base2int("".join(t)))
    return count


def check_limited(hist, limit):
    """Size-limited dictionary: the most recently added keys stay"""
    from spectrocrunch.utils.cache import LimitedSizeDict

    d = LimitedSizeDict(size_limit=limit)
    model = []
    for k, v in hist:
        if v is None:
            if any(a == k for a, _ in model):
                del d[k]
                model = [(a, b) for a, b in model if a != k]
        else:
            d[k] = v
            if any(a == k for a, _ in model):
                model = [(a, v if a == k else b) for a, b in model]
            else:
                model.append((k, v))
            if limit is not None:
                model = model[max(len(model) - limit, 0) :]
        need(list(d.items()) == model, "limit %s, history %r: %r instead of %r", limit, hist, list(d.items()), model)


def check_limited_init(n, limit):
    from spectrocrunch.utils.cache import LimitedSizeDict

    items = [(i, str(i)) for i in range(n)]
    d = LimitedSizeDict(items, size_limit=limit)
    need(list(d.items()) == (items if limit is None else items[max(n - limit, 0) :]), "LimitedSizeDict(%d items, size_limit=%s) is %r", n, limit, d)


def check_cache(hist, force):
    """Nested use of a cache: hist is a list of (subject, leave by exception, inner history)"""
    from spectrocrunch.utils.cache import Cache, withcache

    class C(Cache):
        def __init__(self):
            super().__init__(force=force)
            self.calls = {"a": 0, "b": 0}

        def _cache_a(self, x=0):
            self.calls["a"] += 1
            return "a%d" % self.calls["a"]

        def _cache_b(self, x=0):
            self.calls["b"] += 1
            return "b%d" % self.calls["b"]

        @withcache("a")
        def use(self, err):
            v = self.getcache("a")
            if err:
                raise KeyError(v)
            return v

    c = C()
    active, calls = {}, {"a": 0, "b": 0}

    def look():
        for s in "ab":
            if s in active:
                need(c.getcache(s) == active[s], "cache %s is %r instead of %r", s, c.getcache(s), active[s])
            elif force:
                try:
                    c.getcache(s)
                except RuntimeError:
                    pass
                else:
                    raise Fail("cache %s outside its context" % s)
            else:
                calls[s] += 1
                need(c.getcache(s) == "%s%d" % (s, calls[s]), "cache %s outside its context", s)
        need(c.calls == calls, "computed %s times instead of %s", c.calls, calls)

    def run(items):
        for s, err, inner in items:
            new = s not in active
            if new:
                calls[s] += 1
                active[s] = "%s%d" % (s, calls[s])
            try:
                if inner == "method":
                    v = c.use(err)
                    need(v == active[s], "method uses %r instead of %r", v, active[s])
                else:
                    with c.cachectx(s):
                        look()
                        run(inner)
                        if err:
                            raise KeyError(s)
            except KeyError:
                pass
            if new:
                del active[s]
            look()

    look()
    run(hist)
    for bad in ("nope",):
        try:
            with c.cachectx(bad):
                pass
        except RuntimeError:
            pass
        else:
            raise Fail("unknown subject")


def cache_hists(n):
    """All nested histories of n contexts"""
    if n == 0:
        yield []
        return
    for s in "ab":
        for err in (False, True):
            for k in range(n):
                for inner in cache_hists(k):
                    for rest in cache_hists(n - 1 - k):
                        yield [(s, err, inner)] + rest
    for err in (False, True):
        for rest in cache_hists(n - 1):
            yield [("a", err, "method")] + rest


def check_tile(shape, reps, dirs):
    from spectrocrunch.utils.arraytricks import tile

    src = np.arange(shape[0] * shape[1]).reshape(shape) + 1
    if dirs == 2:
        want = np.zeros((shape[0] * reps, shape[1] * reps), dtype=int)
        for i in range(reps):
            want[i * shape[0] : (i + 1) * shape[0], i * shape[1] : (i + 1) * shape[1]] = src
    else:
        want = np.tile(src, (reps, 1) if dirs == 0 else (1, reps))
    for order in "CF":
        dest = np.zeros(want.shape, dtype=int, order=order)
        tile(src, dest, reps, dirs)
        need(np.array_equal(dest, want), "tile of %r, %d times in direction %d gives %r", src.tolist(), reps, dirs, dest.tolist())
        for bad in ((want.shape[0] + 1, want.shape[1]), (want.shape[0], want.shape[1] + 1)):
            try:
                tile(src, np.zeros(bad, dtype=int), reps, dirs)
            except ValueError:
                pass
            else:
                raise Fail("tile of %s into %s is not refused" % (shape, bad))


def check_convert():
    """Numbers, strings, arrays and back"""
    from spectrocrunch.utils import instance as it
    from spectrocrunch.utils.Enum import Enum
    from spectrocrunch.utils.dict import defaultdict

    count = 0
    texts = ["", "a", "abc", "é", "x y", "0", "日"]
    for s in texts:
        b = s.encode("utf-8")
        count += 1
        need(it.asunicode(b) == s and it.asunicode(s) == s and it.asbytes(s) == b and it.asbytes(b) == b, "asunicode/asbytes of %r", s)
    for x in (0, 1, -5, 1.5, -0.25, 1e300, 10**20, True, 2 + 1j):
        count += 1
        n = it.asnumber(str(x))
        need(n == x and type(n) is type(x) and it.asnumber(x) is x, "asnumber(%r) gives %r", str(x), n)
    for x, y in (("1e3", 1000.0), ("inf", float("inf")), ("-inf", -float("inf")), (" 7", 7), ("08", 8)):
        count += 1
        need(it.asnumber(x) == y, "asnumber(%r) gives %r", x, it.asnumber(x))
    for x in ("", "a", "1 2", "[1]", None, [1], "'a'"):
        count += 1
        n = it.asnumber(x)
        need(isinstance(n, float) and math.isnan(n), "asnumber(%r) gives %r", x, n)
    items = [5, 1.5, "a", None, np.float32(2), [], [1, 2], (1,), [[1, 2], [3, 4]], np.arange(3), np.arange(6).reshape(2, 3), np.array(4), ["a", "b"], (), range(3)]
    for x in items:
        count += 1
        arr, restore = it.asarrayf(x)
        need(isinstance(arr, np.ndarray) and arr.ndim >= 1, "asarrayf(%r) gives %r", x, arr)
        if isinstance(x, set):
            continue
        back = restore(arr)
        if isinstance(x, (list, tuple, range)):
            need(np.array_equal(back, np.asarray(list(x))), "asarrayf(%r) restored: %r", x, back)
        elif isinstance(x, np.ndarray):
            need(isinstance(back, np.ndarray) and back.shape == x.shape and np.array_equal(back, x), "asarrayf(%r) restored: %r", x, back)
        else:
            need(np.ndim(back) == 0 and (back is x or back == x), "asarrayf(%r) restored: %r", x, back)
        need(np.array_equal(it.asarray(x), arr) and it.aslist(x) == arr.tolist(), "asarray, aslist of %r", x)
        need(it.arrayit(x) is x if it.isarray(x) else it.arrayit(x) == [x], "arrayit(%r)", x)
    e = Enum(["a", "b"])
    need(e.a == "a" and e.b == "b" and e("a") == "a" and set(e) == {"a", "b"}, "Enum")
    for bad in ("c", "A", ""):
        for f in (lambda: getattr(e, bad), lambda: e(bad)):
            try:
                f()
            except AttributeError:
                pass
            else:
                raise Fail("Enum has %r" % bad)
    d = defaultdict({"a": 1})
    need(d["a"] == 1 and d["b"] == "b" and list(d) == ["a"], "defaultdict")
    d.setdefaultfactory(lambda k: k * 2)
    need(d["a"] == 1 and d["b"] == "bb" and list(d) == ["a"], "defaultdict with a function")
    return count


# ----------------------------------------------------------------


def worker_init():
    import warnings

    warnings.simplefilter("ignore")


def shards(tier):
    t = tier == "thorough"
    out = [{"what": "two", "n": 7 if t else 5}, {"what": "convert"}, {"what": "tile", "n": 5 if t else 4}]
    out += [{"what": "order", "n": n} for n in range(7 if t else 6)]
    out += [{"what": "flatten", "leaves": k, "depth": 4 if t else 3} for k in range(1, 6 if t else 5)]
    out += [{"what": "clip", "n": n, "lim": 12 if t else 7} for n in range(9 if t else 6)]
    out += [{"what": "merge", "n": k, "part": p} for k in range(6 if t else 5) for p in range(8 if k > 3 else 1)]
    out += [{"what": "base", "k": k, "lim": 5000 if t else 600} for k in range(len(DIGS))]
    out += [{"what": "limited", "n": 6 if t else 5}]
    out += [{"what": "cache", "n": 4 if t else 3, "force": f} for f in (True, False)]
    return out


def cases(shard):
    """The single inputs of a shard: (function, arguments)"""
    w = shard["what"]
    if w == "two":
        for l1 in pairs(shard["n"]):
            yield check_two, (l1,)
    elif w == "convert":
        yield check_convert, ()
    elif w == "order":
        yield check_order, (shard["n"],)
    elif w == "flatten":
        yield check_flatten, (shard["leaves"], shard["depth"])
    elif w == "clip":
        yield check_clip, (shard["n"], shard["lim"])
    elif w == "merge":
        ivs = [(a, b) for a in range(5) for b in range(a, 5)]
        for i, c in enumerate(itertools.product(ivs, repeat=shard["n"])):
            if shard["n"] <= 3 or i % 8 == shard["part"]:
                yield check_merge, ([list(x) for x in c] if i % 2 else list(c),)
    elif w == "base":
        yield check_base, (shard["k"], shard["lim"])
    elif w == "limited":
        ops = [(k, v) for k in "abc" for v in (1, 2, None)]
        for lim in (None, 0, 1, 2):
            for n in range(4):
                yield check_limited_init, (n, lim)
            for h in itertools.product(ops, repeat=shard["n"] - 1):
                yield check_limited, (list(h), lim)
    elif w == "cache":
        for n in range(shard["n"] + 1):
            for h in cache_hists(n):
                yield check_cache, (h, shard["force"])
    elif w == "tile":
        for shape in itertools.product(range(1, shard["n"]), repeat=2):
            for reps in range(1, shard["n"]):
                for dirs in (0, 1, 2):
                    yield check_tile, (shape, reps, dirs)


def run_shard(shard, ctx):
    last = None
    for func, args in cases(shard):
        case = {"func": func.__name__, "args": repr(args)}
        ctx.current = case
        try:
            n = func(*args) or 1
        except Fail as e:
            msg = str(e)
        except Exception as e:  # noqa
            msg = "%s%r raises %r" % (func.__name__, args, e)
        else:
            msg = None
            ctx.tick(n, shard["what"])
            ctx.trans(n)
            ctx.state((func.__name__, repr(args)))
            ctx.trace(n)
        if msg:
            ctx.fail("%s:%s" % (func.__name__, msg.split("(")[0][:30]), case, msg)
        last = case
    ctx.sample(last)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    func = globals()[case["func"]]
    args = eval(case["args"])
    try:
        func(*args)
    except Fail as e:
        ctx.fail(case["func"], case, str(e))
    except Exception as e:  # noqa
        ctx.fail(case["func"], case, "raises %r" % (e,))
