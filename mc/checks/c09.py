"""C09: generated names, for all names over a small alphabet and all sets of existing names."""

import itertools
import os
import random
import re

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all names of up to 5 characters from an alphabet of 8 (letter, digits 0 1 9, dot, underscore, plus, brace), 7 increments each; all pairs of names of up to 4 of 6 characters for family recognition; all subsets of 6 existing names of 4 kinds on disk and in HDF5 for fresh names; up to 3 forced collisions of random names; all histories of 3 result-group creations (5 names, 2 parameters), of 2 on 6 initial contents (other items, dangling links); all histories of 3 entry creations; alignment outputs on every subset of existing names",
    "thorough": "names of up to 6 characters, pairs of up to 5 of 6 characters, histories of 4",
}
ASSUMPTIONS = [
    "the number of a name is its last run of digits; a name without number is continued with .1 and belongs to the family of the names name.N",
    "random names are made with the random module (its seed is used to force collisions)",
]

ALPHA = "a019._+{"
PALPHA = "a19.+_"


# ----- reference -----
def split(name):
    """prefix, number, suffix (number None when there is none)"""
    i = len(name)
    while i > 0 and not name[i - 1].isdigit():
        i -= 1
    if i == 0:
        return name, None, ""
    j = i
    while j > 0 and name[j - 1].isdigit():
        j -= 1
    return name[:j], name[j:i], name[i:]


def plus(name, k):
    """The name k further"""
    a, n, b = split(name)
    if n is None:
        return name if k == 0 else "%s.%d" % (name, k)
    return a + str(int(n) + k).zfill(len(n)) + b


def family(name, other):
    """other belongs to the family of name"""
    a, n, b = split(name)
    if n is None:
        if other == name:
            return True
        rest = other[len(name) + 1 :]
        return other.startswith(name + ".") and rest.isdigit()
    if len(other) <= len(a) + len(b) or not other.startswith(a) or not other.endswith(b):
        return False
    return other[len(a) : len(other) - len(b)].isdigit()


def words(alpha, n):
    for k in range(1, n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield "".join(w)


def check_name(name, ctx):
    from spectrocrunch.io import target

    case = {"name": name}
    ctx.current = case
    ctx.tick(1, "names")
    has = split(name)[1] is not None
    try:
        n = target.Name(name)
        # starts with the name itself or with the first of the family
        first = name if has else plus(name, 1)
        seen = []
        for k in range(7):
            s = str(n)
            want = plus(first, k)
            if s != want:
                ctx.fail("increment", case, "%r: increment %d gives %r instead of %r" % (name, k, s, want))
                return
            for nm, f in (("match", target.match(name)), ("family match", n.matchfunc)):
                if not f(s) or not f(first):
                    ctx.fail(nm, case, "%r does not match %r" % (name, s))
                    return
            seen.append(s)
            n += 1
        if len(set(seen)) != len(seen):
            ctx.fail("fresh", case, "%r repeats itself: %s" % (name, seen))
        n.reset()
        if str(n) != first:
            ctx.fail("reset", case, "%r reset gives %r" % (name, str(n)))
        m = n + 3
        if str(n) != first or str(m) != plus(first, 3):
            ctx.fail("add", case, "%r + 3 gives %r, itself %r" % (name, str(m), str(n)))
        n.lock()
        n += 1
        if str(n) != first:
            ctx.fail("lock", case, "%r locked is incremented to %r" % (name, str(n)))
        n.unlock()
        n += 12
        if str(n) != plus(first, 12):
            ctx.fail("unlock", case, "%r unlocked and 12 further is %r" % (name, str(n)))
        for k in (1, 2, 9, 100):
            if target.increment(name, k) != plus(name, k):
                ctx.fail("increment function", case, "%r %d further is %r instead of %r" % (name, k, target.increment(name, k), plus(name, k)))
        if target.prepare(name) != first:
            ctx.fail("prepare", case, "%r prepared is %r" % (name, target.prepare(name)))
    except Exception as e:  # noqa
        ctx.fail("name raises %s" % type(e).__name__, case, "%r raises %r" % (name, e))
    ctx.trans(1)


def check_pairs(a, others, ctx):
    from spectrocrunch.io import target

    ctx.current = {"family": a}
    f = target.match(a)
    for b in others:
        ctx.tick(1, "pairs")
        if bool(f(b)) != family(a, b):
            ctx.fail("family", {"family": a}, "%r and %r: recognised as one family is %s" % (a, b, bool(f(b))))
    ctx.trans(1)


# ----- fresh names in a directory or HDF5 group -----
UNIVERSE = ["x", "x(1)", "x(2)", "x(4)", "x(1)(1)", "y(9)"]
ASK = ["x", "x(1)", "x(2)", "x(4)", "x(1)(1)", "y(9)", "x(10)", "(3)", "y"]
KINDS = ["file", "dir", "dangling", "link"]


def make(root, name, kind, real):
    p = root[name]
    if kind == "file":
        p.mkfile(**({"data": 1} if real == "h5" else {}))
    elif kind == "dir":
        p.mkdir()
    elif kind == "dangling":
        p.link(root["gone"])
    else:
        p.link(root["other"])


def open_root(ctx, real, tag):
    from spectrocrunch.io import h5fs, localfs

    d = os.path.join(ctx.scratch, tag)
    os.makedirs(d)
    if real == "h5":
        return h5fs.Path("/g", h5file=os.path.join(d, "f.h5"), mode="a").mkdir()
    return localfs.Path(os.path.join(d, "g")).mkdir()


def ref_fresh(name, have):
    if name not in have:
        return name
    m = re.match(r"^(.+)\((\d+)\)$", name, re.S)
    base, i = (m.group(1), int(m.group(2)) + 1) if m else (name, 1)
    while "%s(%d)" % (base, i) in have:
        i += 1
    return "%s(%d)" % (base, i)


def with_root(root):
    import contextlib

    return root.h5open() if hasattr(root, "h5open") else contextlib.nullcontext()


def check_fresh(real, mask, rot, ctx):
    case = {"fresh": [real, mask, rot]}
    ctx.current = case
    root = open_root(ctx, real, "fresh%s%d_%d" % (real, mask, rot))
    with with_root(root):
        root["other"].mkdir()
        have = {"other"}
        for i, n in enumerate(UNIVERSE):
            if mask >> i & 1:
                make(root, n, KINDS[(i + rot) % 4], real)
                have.add(n)
        for ask in ASK:
            ctx.tick(1, "fresh names")
            got = root.nonexisting_name(ask)
            if got in have or root[got].lexists:
                ctx.fail("existing name", case, "%s: asked for %r, got the existing %r" % (sorted(have), ask, got))
            elif got != ref_fresh(ask, have):
                ctx.fail("fresh name", case, "%s: asked for %r, got %r instead of %r" % (sorted(have), ask, got, ref_fresh(ask, have)))
            elif not got:
                ctx.fail("fresh name", case, "empty")
        # names taken one after the other
        for ask in ("x", "x", "x(1)", "x(2)"):
            got = root.nonexisting_name(ask)
            if got in have:
                ctx.fail("existing name", case, "%s: asked for %r, got the existing %r" % (sorted(have), ask, got))
                break
            root[got].mkdir()
            have.add(got)
    names = {p.name for p in root}
    if names != have:
        ctx.fail("names", case, "%s instead of %s" % (names, have))
    ctx.state((real, mask, rot))
    ctx.trans(len(ASK))
    ctx.trace(1)


# ----- random names -----
def check_random(real, what, kinds, ctx):
    """Collisions forced with the seed"""
    from spectrocrunch.io import utils

    case = {"random": [real, what, list(kinds)]}
    ctx.current = case
    ctx.tick(1, "forced collisions")
    root = open_root(ctx, real if real == "h5" else "disk", "rnd%s%s%s" % (real, what, "".join(k[:2] for k in kinds)))
    d = root.path
    names = []
    with with_root(root):
        root["other"].mkdir()

        def ask():
            random.seed(7)
            if what == "node":
                return root.randomnode(prefix="p", suffix=".s").name
            if what == "temp":
                with root.temp(prefix="p", suffix=".s", remove=False) as p:
                    if p.lexists:
                        ctx.fail("random " + what, case, "%s exists" % p)
                    return p.name
            if what == "name":
                return os.path.basename(utils.temporary_filename(d, prefix="p", suffix=".s"))
            with utils.TemporaryFilename(d, prefix="p", suffix=".s") as f:
                return os.path.basename(f)

        for k in list(kinds) + [None]:
            n = ask()
            if not (n.startswith("p") and n.endswith(".s") and len(n) > 3):
                ctx.fail("random " + what, case, "%r has no prefix or suffix" % n)
            if n in names or root[n].lexists:
                ctx.fail("random %s exists" % what, case, "%r exists already (%s)" % (n, k))
                break
            if k:
                make(root, n, k, real)
                names.append(n)
        left = {p.name for p in root} - {"other"}
        if left != set(names):
            ctx.fail("random %s left" % what, case, "%s left instead of %s" % (left, names))
    ctx.state((real, what, kinds))
    ctx.trans(len(names) + 1)


def check_tempcopy(n, ctx):
    """Temporary copies when the candidate names are taken"""
    import tempfile
    from spectrocrunch.io import utils

    case = {"tempcopy": n}
    ctx.current = case
    ctx.tick(1, "forced collisions")
    d = os.path.join(ctx.scratch, "tempcopy%d" % n)
    os.makedirs(d)
    src = os.path.join(d, "src.tmp")
    open(src, "w").write("source")
    old, olds = tempfile.tempdir, tempfile._name_sequence
    tempfile.tempdir = d
    try:
        taken = []
        for k in range(n + 1):
            random.seed(3)
            tempfile._name_sequence = iter(["c%d" % i for i in range(100)])
            with utils.TemporaryCopy(src) as f:
                if os.path.basename(f) in taken:
                    ctx.fail("temporary copy", case, "%s existed already" % f)
                if open(f).read() != "source":
                    ctx.fail("temporary copy", case, "content")
                mine = os.path.basename(f)
            if os.path.exists(f):
                ctx.fail("temporary copy", case, "%s not removed" % f)
            open(os.path.join(d, mine), "w").write("mine")
            taken.append(mine)
            for t in taken:
                if not os.path.exists(os.path.join(d, t)) or open(os.path.join(d, t)).read() != "mine":
                    ctx.fail("temporary copy", case, "%s overwritten or removed" % t)
                    return
    finally:
        tempfile.tempdir, tempfile._name_sequence = old, olds
    ctx.trans(n + 1)


# ----- renaming temporary results -----
def check_temprename(real, kind, force, raises, ctx):
    case = {"temprename": [real, kind, force, raises]}
    ctx.current = case
    ctx.tick(1, "temporary results")
    root = open_root(ctx, real, "tr%s%s%d%d" % (real, kind, force, raises))
    with with_root(root):
        root["other"].mkdir()
        root["other"]["keep"].mkdir()
        if kind:
            make(root, "res", kind, real)
        try:
            with root.temp(name="res", force=force) as p:
                p.mkdir()
                p["new"].mkdir()
                if raises:
                    raise KeyError
        except KeyError:
            pass
        left = {q.name for q in root}
        if left != {"other", "res"}:
            ctx.fail("temporary result", case, "%s left" % left)
        new = root["res"]["new"].exists
        if kind and not force and kind != "dangling" and new:
            ctx.fail("temporary result", case, "existing name was overwritten")
        if (not kind or force) and not new:
            ctx.fail("temporary result", case, "the result is not there")
        if not root["other"]["keep"].exists or root["other"]["new"].exists:
            ctx.fail("temporary result", case, "destination of the link is changed")
    ctx.trans(1)


# ----- result groups -----
PROC = ["m", "m.1", "m09", "s1_m", "m.1.2"]
OPS = [(n, p) for n in PROC for p in (1, 2)][:]
FIRST = [None, ("m.1", "group"), ("m", "dangling"), ("m.1", "dangling"), ("m10", "data"), ("s2_m", "link"), ("m.1.3", "dangling")]


def ref_process(have, name, param):
    """have: name -> parameter or None (something else). Name that is returned"""
    return [n for n, p in have.items() if p == param and family(name, n)]


def ref_new(have, name):
    if name not in have:
        return name
    k = 0
    first = name if split(name)[1] is not None else plus(name, 1)
    while plus(first, k) in have:
        k += 1
    return plus(first, k)


def check_processes(first, ops, ctx):
    from spectrocrunch.io import fs, nxfs

    case = {"processes": [first, list(ops)]}
    ctx.current = case
    ctx.tick(1, "result histories")
    d = os.path.join(ctx.scratch, "p%d" % (abs(hash((first, ops))) % 10**9))
    os.makedirs(d)
    root = nxfs.Path("/", h5file=os.path.join(d, "f.h5"))
    have = {}
    with root.h5open():
        entry = root.nxentry(name="e0001")
        if first:
            n, k = first
            if k == "group":
                entry[n].mkdir()
            elif k == "data":
                entry[n].mkfile(data=3)
            else:
                entry[n].link(root["nowhere"] if k == "dangling" else entry)
            have[n] = None
        for n, p in ops:
            existing = ref_process(have, n, p)
            blocked = n in have and have[n] is None
            try:
                got = entry.nxprocess(n, parameters={"p": p})
            except fs.AlreadyExists:
                if existing or not blocked:
                    ctx.fail("result name refused", case, "%r refused although it is free or can be continued" % n)
                    return
                ctx.outcome("refused")
                continue
            except Exception as e:  # noqa
                ctx.fail("result name raises", case, "%s, %s: %r raises %r" % (first, ops, n, e))
                return
            if existing:
                if got.name not in existing:
                    ctx.fail("result name", case, "%r gives %r instead of the existing %s" % (n, got.name, existing))
                    return
                ctx.outcome("reused")
            else:
                if got.name in have:
                    ctx.fail("existing result name", case, "%r gives the existing %r" % (n, got.name))
                    return
                if got.name != ref_new(have, n):
                    ctx.fail("result name", case, "%r gives %r instead of %r" % (n, got.name, ref_new(have, n)))
                    return
                have[got.name] = p
                ctx.outcome("new")
        for n, p in have.items():
            if p is not None and (not entry[n].is_nxclass("NXprocess") or entry[n].config.read() != {"p": p}):
                ctx.fail("result changed", case, "parameters of %r changed" % n)
        left = {q.name for q in entry} - {"start_time", "end_time"}
        if left != set(have):
            ctx.fail("result names", case, "%s instead of %s" % (left, set(have)))
    ctx.state((first, tuple(sorted(have.items(), key=str))))
    ctx.trace(1)
    ctx.trans(len(ops))


ENTRIES = ["e1", "entry0001", "e09", "scan", "scan.2", "sample_dataset0007_sub"]


def check_entries(start, blocked, n, ctx):
    """New entries continue the numbering of the last or given entry"""
    from spectrocrunch.io import nxfs

    case = {"entries": [start, blocked, n]}
    ctx.current = case
    ctx.tick(1, "entry histories")
    d = os.path.join(ctx.scratch, "e%s%s%d" % (start, "".join(map(str, blocked)), n))
    os.makedirs(d)
    root = nxfs.Path("/", h5file=os.path.join(d, "f.h5"))
    with root.h5open():
        have = set()
        entry = root.nxentry(name=start)
        have.add(start)
        base = start
        first = base if split(base)[1] is not None else plus(base, 1)
        for k, kind in blocked:
            p = root[plus(first, k)]
            if p.name in have:
                continue
            if kind == "entry":
                root.nxentry(name=p.name)
            elif kind == "group":
                p.mkdir()
            else:
                p.link(root["nowhere"])
            have.add(p.name)
        for i in range(n):
            k = 0
            while plus(first, k) in have:
                k += 1
            want = plus(first, k)
            got = entry.next_nxentry_name(entry=entry)
            if got != want or got in have:
                ctx.fail("entry name", case, "%s: next is %r instead of %r" % (sorted(have), got, want))
                return
            new = root.new_nxentry(entry=entry)
            if new.name != want or not new.is_nxclass("NXentry"):
                ctx.fail("entry name", case, "%s: new is %r instead of %r" % (sorted(have), new.name, want))
                return
            have.add(want)
        # numbering of the last entry
        got = root.next_nxentry_name()
        if got in have or not any(family(h, got) for h in have):
            ctx.fail("entry name", case, "%s: next is %r" % (sorted(have), got))
    ctx.state((start, blocked, n))
    ctx.trans(n)


# ----- alignment outputs -----
def check_align(real, mask, n, overwrite, ctx):
    import numpy as np
    import h5py
    import fabio  # noqa
    from spectrocrunch.align.alignDest import alignDest

    case = {"align": [real, mask, n, overwrite]}
    ctx.current = case
    ctx.tick(1, "alignment outputs")
    d = os.path.join(ctx.scratch, "al%s%d_%d_%d" % (real, mask, n, overwrite))
    os.makedirs(d)
    names = ["s1", "s2"]
    dest = os.path.join(d, "out.h5" if real == "h5" else "out")

    def put(k):
        """Existing output k (0: out, 1: out_1)"""
        if real == "h5":
            with h5py.File(dest, "a") as f:
                for i in range(2):
                    if mask >> (2 * k + i) & 1:
                        f[("" if not k else "entry%d/" % k) + names[i]] = np.full((2, 2, 2), 7.0)
        else:
            q = dest + ("_%d" % k if k else "")
            for i in range(2):
                if mask >> (2 * k + i) & 1:
                    os.makedirs(q, exist_ok=True)
                    open(os.path.join(q, names[i] + "_0.edf"), "w").write("existing")

    def content():
        out = {}
        if real == "h5":
            with h5py.File(dest, "a") as f:
                f.visititems(lambda k, v: out.__setitem__(k, v[()].tolist()) if isinstance(v, h5py.Dataset) else None)
        else:
            for r, _, fs in os.walk(d):
                for f in fs:
                    out[os.path.relpath(os.path.join(r, f), d)] = open(os.path.join(r, f), "rb").read()
        return out

    put(0)
    put(1)
    before = content()
    for k in range(n):
        try:
            a = alignDest(dest, names, "" if real == "h5" else ".edf", stackdim=2, overwrite=overwrite)
            a.prepare(2, (2, 2), np.dtype(float))
            for i in range(2):
                for j in range(2):
                    a.writeimg(np.full((2, 2), 1.0 + i + 10 * j + 100 * k), i, j)
            if real == "h5":
                a.handle.close()
        except Exception as e:  # noqa
            ctx.fail("alignment output %s raises" % real, case, "raises %r" % e)
            return
        after = content()
        new = {x for x in after if x not in before}
        changed = [x for x in before if after.get(x) != before[x]]
        if not overwrite:
            if changed:
                ctx.fail("alignment output %s" % real, case, "%s overwritten" % changed)
                return
            if len(new) != (2 if real == "h5" else 4):
                ctx.fail("alignment output %s" % real, case, "%s written" % sorted(new))
                return
        elif (real == "edf" or mask & 3 in (0, 3)) and any("entry" in x or "out_" in x for x in new):
            ctx.fail("alignment output %s" % real, case, "%s written although overwriting" % sorted(new))
            return
        before = after
    ctx.state((real, mask, n, overwrite))
    ctx.trans(n)


NP = 8


def worker_init():
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import spectrocrunch.io.nxfs  # noqa


def shards(tier):
    t = tier == "thorough"
    out = []
    for p in range(NP):
        out.append({"what": "name", "n": 6 if t else 5, "part": p})
        out.append({"what": "pairs", "n": 5 if t else 4, "part": p})
        out.append({"what": "fresh", "part": p})
        out.append({"what": "align", "part": p})
        out.append({"what": "random", "part": p})
        out.append({"what": "entries", "part": p})
    for i in range(len(FIRST)):
        for p in range(NP):
            out.append({"what": "processes", "first": i, "n": (4 if t else 3) - bool(i), "part": p})
    return out


def run_shard(shard, ctx):
    w = shard["what"]

    def mine(it):
        for i, x in enumerate(it):
            if i % NP == shard["part"]:
                yield x

    if w == "name":
        for s in mine(words(ALPHA, shard["n"])):
            check_name(s, ctx)
    elif w == "pairs":
        others = list(words(PALPHA, shard["n"]))
        some = others if shard["n"] < 5 else list(words(PALPHA, 4))
        for a in mine(some):
            check_pairs(a, others, ctx)
    elif w == "fresh":
        for x in mine(itertools.product(("disk", "h5"), range(64), range(4))):
            check_fresh(*x, ctx)
    elif w == "align":
        for x in mine(itertools.product(("h5", "edf"), range(16), (1, 2), (False, True))):
            check_align(*x, ctx)
    elif w == "random":
        ks = [k for n in (0, 1, 2, 3) for k in itertools.product(KINDS, repeat=n)]
        for x in mine([("disk", w2, k) for w2 in ("node", "temp", "name", "filename") for k in ks] + [("h5", w2, k) for w2 in ("node", "temp") for k in ks]):
            check_random(*x, ctx)
        for x in mine(itertools.product(("disk", "h5"), [None] + KINDS, (False, True), (False, True))):
            check_temprename(*x, ctx)
        for n in mine(range(4)):
            check_tempcopy(n, ctx)
    elif w == "entries":
        bl = [()]
        for ks in ((0,), (1,), (2,), (0, 1), (1, 2), (1, 3)):
            for kind in itertools.product(("entry", "group", "dangling"), repeat=len(ks)):
                bl.append(tuple(zip(ks, kind)))
        for x in mine(itertools.product(ENTRIES, bl, (1, 3))):
            check_entries(*x, ctx)
    else:
        first = FIRST[shard["first"]]
        for ops in mine(itertools.product(OPS, repeat=shard["n"])):
            # the parameters are interchangeable
            if ops[0][1] == 2:
                continue
            check_processes(first, ops, ctx)
    ctx.sample(shard)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    t = lambda x: tuple(t(y) for y in x) if isinstance(x, list) else x  # noqa
    if "name" in case:
        check_name(case["name"], ctx)
    elif "family" in case:
        check_pairs(case["family"], list(words(PALPHA, 4)), ctx)
    else:
        (k, v), = case.items()
        f = {"fresh": check_fresh, "random": check_random, "temprename": check_temprename, "processes": check_processes, "entries": check_entries, "align": check_align}.get(k)
        if f:
            f(*t(v), ctx)
        else:
            check_tempcopy(v, ctx)
