"""C23: scan commands, headers and spec files written from a description are read back as that description."""

import itertools
import os
import re

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all 8 command forms with every pair of fields running over all texts of that field (15 number texts, 5 counts, 5 times, 6 motors), 6 spacings, every token removed, repeated or replaced by each of 16 malformed texts, 9 unknown command names; derived positions for 7x7 ranges and up to 7 points; image headers with every combination of labels, units, compensation motors and missing fields; sub maps for all pixel windows; spec files with all sequences of up to 3 of 10 scans; spectra of up to 40 channels",
    "thorough": "every triple of fields; spec files with all sequences of up to 4 of 10 scans",
}
ASSUMPTIONS = [
    "arguments after the last field of a command are ignored",
    "the number of lines of an image header field slow_nbp counts steps, as in the command",
    "spec files are loaded by the PyMca that is installed",
]

MOT = ["sampy", "sampz", "E", "th2", "x_1", "mono"]
NUM = ["0", "1", "-1", "+2", "1.5", "-0.25", ".5", "-.5", "2.", "1e-05", "1E3", "-1.5e+2", "007", "100.0", "123456789.125"]
CNT = ["10", "1", "05", "200", "0"]
TIM = ["100", "0.1", "33.3", "1e3", "5"]
FORMS = {
    # name -> list of (fields, first word, unit of time)
    "zapimage": [
        ["motfast:m", "startfast:f", "endfast:f", "npixelsfast:i", "time:t", "motslow:m", "startslow:f", "endslow:f", "nstepsslow:i"],
        ["motfast:m", "startfast:f", "endfast:f", "npixelsfast:i", "motslow:m", "startslow:f", "endslow:f", "nstepsslow:i", "time:t"],
    ],
    "puzzle": [["motfast:p", "startfast:f", "endfast:f", "npixelsfast:i", "motslow:p", "startslow:f", "endslow:f", "nstepsslow:i", "time:t"]],
    "mesh": [["motfast:m", "startfast:f", "endfast:f", "nstepsfast:i", "motslow:m", "startslow:f", "endslow:f", "nstepsslow:i", "time:t"]],
    "zapline": [["motfast:m", "startfast:f", "endfast:f", "npixelsfast:i", "time:t"]],
    "ascan": [["motfast:m", "startfast:f", "endfast:f", "nstepsfast:i", "time:t"]],
    "zapenergy": [["SUM", "repeats:i", "time:t"], ["SUM2", "repeats:i", "time:t"]],
}
SECONDS = ("mesh", "ascan")
POOL = {"m": MOT, "p": MOT + ["2th"], "f": NUM, "i": CNT, "t": TIM}
BAD = ["", "abc", "1.2.3", "--1", "1e", "0x1", "1,5", "nan", "-", "1-2", "1e2.5", "5a", "a-b", "1.5", "-3", "1e2", "."]


def is_float(t):
    if set(t) - set("0123456789+-.eE"):
        return False
    try:
        float(t)
        return True
    except ValueError:
        return False


def reference(cmd):
    """What a command states, None when it is unknown"""
    tokens = cmd.split()
    if not tokens or tokens[0] not in FORMS:
        return None
    name = tokens[0]
    for form in FORMS[name]:
        if len(tokens) - 1 < len(form):
            continue
        out = {"name": name}
        for f, t in zip(form, tokens[1:]):
            field, _, kind = f.partition(":")
            if not kind:
                ok = t == f
            elif kind == "m":
                ok = t.isascii() and t.isidentifier()
                out[field] = t
            elif kind == "p":
                ok = t.isascii() and t.replace("_", "a").isalnum()
                out[field] = t
            elif kind == "i":
                ok = t.isascii() and t.isdigit()
                out[field] = int(t) if ok else None
            else:
                ok = is_float(t)
                out[field] = float(t) if ok else None
            if not ok:
                break
        else:
            return out
    return None


def check_command(cmd, ctx):
    from spectrocrunch.io import spec

    want = reference(cmd)
    case = {"command": cmd}
    ctx.current = case
    ctx.tick(1, "commands")
    p = spec.cmd_parser()
    try:
        got = p.parse(cmd)
    except Exception as e:  # noqa
        ctx.fail("parse raises", case, "%r raises %r" % (cmd, e))
        return
    if want is None:
        if got != {"name": "unknown"}:
            ctx.fail("unknown", case, "%r is read as %s" % (cmd, got))
        return
    got = dict(got)
    t = got.pop("time", None)
    w = dict(want)
    wt = w.pop("time")
    kind = cmd.split()[0]
    if got.get("name") == "unknown":
        ctx.fail("%s not recognized" % kind, case, "%r is not recognized" % cmd)
    elif got != w or any(type(got[k]) is not type(w[k]) for k in w):
        ctx.fail(kind, case, "%r is read as %s" % (cmd, got))
    elif abs(t.to("ms").magnitude - wt * (1000 if kind in SECONDS else 1)) > 1e-9 * abs(wt) * 1000:
        ctx.fail("%s time" % kind, case, "%r takes %s" % (cmd, t))
    # read with the parser of that command
    if dict(getattr(p, "parse" + kind)(cmd.strip()), time=None) != dict(p.parse(cmd), time=None):
        ctx.fail("%s parser" % kind, case, "%r differs" % cmd)


def commands(name, form, depth):
    pools = [POOL.get(f.partition(":")[2], [f]) for f in form]
    base = [p[i % len(p)] for i, p in enumerate(pools)]
    seen = set()
    for idx in itertools.combinations(range(len(pools)), min(depth, len(pools))):
        for val in itertools.product(*[pools[i] for i in idx]):
            t = list(base)
            for i, v in zip(idx, val):
                t[i] = v
            c = " ".join([name] + t)
            if c not in seen:
                seen.add(c)
                yield c


def mutations(name, form):
    pools = [POOL.get(f.partition(":")[2], [f]) for f in form]
    for k in range(3):
        base = [name] + [p[(i + k) % len(p)] for i, p in enumerate(pools)]
        for sep in (" ", "  ", "\t", " \t "):
            for a, b in (("", ""), (" ", ""), ("\t", " "), ("", "\n"), ("", " 0"), ("", "  extra 1")):
                yield a + sep.join(base) + b
        for i in range(len(base)):
            yield " ".join(base[:i] + base[i + 1 :])
            yield " ".join(base[: i + 1] + base[i:])
            yield " ".join(base[:i])
            for bad in BAD:
                yield " ".join(base[:i] + [bad] + base[i + 1 :])
                yield " ".join(base[:i] + [base[i] + bad] + base[i + 1 :])
        for i in range(1, len(base) - 1):
            yield " ".join(base[:i] + [base[i + 1], base[i]] + base[i + 2 :])
        for other in list(FORMS) + ["dscan", "zap", "Zapimage", name + "s", name[:-1], "a" + name, "#", name.upper(), "loopscan"]:
            yield " ".join([other] + base[1:])


RANGES = (-3.5, -1.0, 0.0, 0.3, 2.0, 5.0, 1e4)


def check_positions(ctx):
    from spectrocrunch.io import spec

    for a, b in itertools.product(RANGES, repeat=2):
        for n in range(1, 8):
            case = {"positions": [a, b, n]}
            ctx.current = case
            ctx.tick(1, "positions")
            tol = 1e-9 * max(abs(a), abs(b), 1)
            try:
                v = np.asarray(spec.zapline_values(a, b, n))
                d = (b - a) / n
                want = [a + d * (i + 0.5) for i in range(n)]
                if v.shape != (n,) or not np.allclose(v, want, atol=tol):
                    ctx.fail("zapline values", case, "%s instead of %s" % (v, want))
                if not np.allclose(spec.zapline_range(a, b, n), [want[0], want[-1]], atol=tol):
                    ctx.fail("zapline range", case, "%s" % (spec.zapline_range(a, b, n),))
                if abs(spec.zapline_pixelsize(a, b, n) - d) > tol:
                    ctx.fail("zapline pixel size", case, "%s instead of %s" % (spec.zapline_pixelsize(a, b, n), d))
                if abs(spec.zapline_scansize(a, b, n) - (want[-1] - want[0])) > tol:
                    ctx.fail("zapline size", case, "%s instead of %s" % (spec.zapline_scansize(a, b, n), want[-1] - want[0]))
            except Exception as e:  # noqa
                ctx.fail("zapline raises", case, "%s raises %r" % (case, e))
            try:
                n -= 1
                v = np.asarray(spec.ascan_values(a, b, n))
                want = [a + (b - a) * i / n for i in range(n + 1)] if n else [a]
                if v.shape != (n + 1,) or not np.allclose(v, want, atol=tol):
                    ctx.fail("ascan values", case, "%s instead of %s" % (v, want))
                if n:
                    if not np.allclose(spec.ascan_range(a, b, n), [a, b]):
                        ctx.fail("ascan range", case, "%s" % (spec.ascan_range(a, b, n),))
                    if abs(spec.ascan_pixelsize(a, b, n) - (b - a) / n) > tol or abs(spec.ascan_scansize(a, b, n) - (b - a)) > tol:
                        ctx.fail("ascan pixel size", case, "%s" % (spec.ascan_pixelsize(a, b, n),))
                else:
                    spec.ascan_pixelsize(a, b, n)
            except Exception as e:  # noqa
                ctx.fail("ascan raises", case, "%s raises %r" % (case, e))
            ctx.trans(1)


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))


UM = {"dimensionless": None, "mm": 1000.0, "um": 1.0}


def check_header(spec_cmd, labels, units, comp, names, have, dims, ctx):
    """One image header"""
    from spectrocrunch.io import spec

    case = {"header": [spec_cmd, labels, units, comp, names, have, dims]}
    ctx.current = case
    ctx.tick(1, "headers")
    h = {"Dim_1": "7", "Dim_2": "4", "comp": "2.5", "comp2": "-1.5", "energy": "7.1", "itime": "0.2"}
    if spec_cmd:
        h["Title"] = spec_cmd
    for ax, mot, a, b, n in (("fast", "sampy", 1.0, 4.0, 6), ("slow", "sampz", 5.0, -1.0, 3)):
        for k, v in (("_mot", mot), ("_start", a), ("_end", b), ("_nbp", n)):
            h[ax + k] = str(v)
    for k in have:
        del h[k]
    kw = {}
    if "spec" in labels:
        kw["speclabel"] = "Title"
    for ax in ("fast", "slow"):
        if ax in labels:
            kw[ax + "label"] = ax
    # the model
    st = {}
    ref = reference(h["Title"]) if "spec" in labels and "Title" in h else None
    if ref:
        for ax, n in (("fast", "npixelsfast"), ("slow", "nstepsslow")):
            if n in ref:
                st[ax] = (ref["mot" + ax], ref["start" + ax], ref["end" + ax], ref[n])
    for ax in ("fast", "slow"):
        if ax in labels and all(ax + k in h for k in ("_mot", "_start", "_end", "_nbp")):
            st[ax] = (h[ax + "_mot"], float(h[ax + "_start"]), float(h[ax + "_end"]), int(h[ax + "_nbp"]))
    want = []
    for ax, dim, d in (("slow", "Dim_2", dims[0] if dims else None), ("fast", "Dim_1", dims[1] if dims else None)):
        if ax in st:
            mot, a, b, n = st[ax]
            u = units.get(mot, "dimensionless")
            name = mot
            for c in comp.get(mot, []):
                if c in h:
                    p = float(h[c])
                    if u != "dimensionless":
                        p *= UM[units.get(c)] / UM[u]
                    a, b = a + p, b + p
                    name = names.get(mot, mot)
            if ax == "fast":
                v = [a + (b - a) * (i + 0.5) / n for i in range(n)]
            else:
                v = [a + (b - a) * i / n for i in range(n + 1)] if n else [a]
            want.append((name, v, u))
        else:
            n = d if d else int(h[dim])
            want.append((ax, [i + (0.5 if ax == "fast" else 0) for i in range(n)], "dimensionless"))
    try:
        parser = spec.edfheader_parser(units=units, compensationmotors=comp, axesnamemap=names, energy="energy", time="itime", **kw)
        before = dict(h)
        for again in range(2):
            out = parser.parse(h, defaultdims=dims)
            if h != before:
                ctx.fail("header changed", case, "%s" % h)
            for k, lbl in (("energy", "energy"), ("time", "itime")):
                if k == "time" and "itime" not in h and ref and "time" in out:
                    if abs(out["time"].to("ms").magnitude - ref["time"] * (1000 if ref["name"] in SECONDS else 1)) > 1e-6:
                        ctx.fail("header time", case, "%s" % out["time"])
                    continue
                x = out[k].to(units.get(lbl, "dimensionless")).magnitude
                if not near(x, float(h.get(lbl, "nan"))):
                    ctx.fail("header " + k, case, "%s instead of %s" % (x, h.get(lbl)))
            if len(out["axes"]) != 2:
                ctx.fail("header axes", case, "%s axes" % len(out["axes"]))
                return
            for ax, (name, v, u) in zip(out["axes"], want):
                if ax.name != name:
                    ctx.fail("header axis name", case, "%s instead of %s" % (ax.name, name))
                if not near(ax.values.to(u).magnitude, v):
                    ctx.fail("header axis", case, "%s: %s instead of %s %s" % (name, ax.values, v, u))
    except Exception as e:  # noqa
        ctx.fail("header raises %s" % type(e).__name__, case, "%s raises %r" % (case, e))
    ctx.trans(1)


COMMANDS = [None, "zapimage sampz 0 2 8 100 sampy -3 -1 4 ", "zapimage sampy 0 2 8 sampz -3 -1 4 50", "puzzle sampy 0 2 1 sampz 3 3 0 5", "loopscan 3 1"]
UNITS = [{}, {"sampy": "um", "sampz": "um", "comp": "mm", "comp2": "um", "energy": "keV", "itime": "s"}, {"sampy": "um", "sampz": "mm", "comp": "mm", "comp2": "mm", "itime": "ms"}]
COMPS = [{}, {"sampy": ["comp"]}, {"sampy": ["comp", "comp2"], "sampz": ["comp2"]}, {"sampz": ["nothere"], "sampy": ["nothere", "comp2"]}]
NAMEMAPS = [{}, {"sampy": "y", "sampz": "z", "sampx": "x"}]
MISSING = [(), ("comp",), ("comp2", "energy"), ("itime",), ("fast_mot",), ("slow_nbp",), ("fast_end", "slow_start")]


def headers():
    for c, k, u, co, nm, miss in itertools.product(COMMANDS, ((), ("spec",), ("fast", "slow"), ("spec", "fast"), ("spec", "slow", "fast"), ("slow",)), UNITS, COMPS, NAMEMAPS, MISSING):
        if not u and co and any("comp" in v or "comp2" in v for v in co.values()):
            pass
        for dims in (None, (3, 5)) if not miss else (None,):
            yield c, list(k), u, co, nm, list(miss), dims


def check_submap(ctx):
    from spectrocrunch.io import spec

    for a, b, n in ((0.0, 8.0, 8), (4.0, 0.0, 4), (-1.0, 0.0, 5)):
        for c, d, m in ((0.0, 3.0, 3), (2.0, -2.0, 4)):
            fast = [a + (b - a) * (i + 0.5) / n for i in range(n)]
            slow = [c + (d - c) * i / m for i in range(m + 1)]
            cmd = "zapimage sampy %r %r %d 50 sampz %r %r %d" % (a, b, n, c, d, m)
            header = {"Title": cmd, "sampy": "9", "sampz": "8", "other": "5"}
            for pf in [x + 0.01 for x in fast]:
                for ps in [x + 0.01 for x in slow]:
                    for rng in (0.0, 500.0, 2000.0, 3000.0, 20000.0):
                        case = {"submap": [cmd, pf, ps, rng]}
                        ctx.current = case
                        ctx.tick(1, "sub maps")
                        try:
                            pos = {"sampy": pf, "sampz": ps, "other": 5}
                            k = {"sampy": 1e-3, "sampz": 5e-4}
                            scan, move, sl = spec.zapimage_submap(header, "Title", rng, pos, k)
                            ends = {}
                            for mot, v, p in (("f", fast, pf), ("s", slow, ps)):
                                half = rng * k["sampy" if mot == "f" else "sampz"] / 2
                                ends[mot] = [min(range(len(v)), key=lambda i: (abs(v[i] - x), i)) for x in (p - half, p + half)]
                                e = [min(abs(y - x) for y in v) for x in (p - half, p + half)]
                                ends[mot + "d"] = e
                            r = reference(scan)
                            if r is None or r["motfast"] != "sampy" or r["motslow"] != "sampz" or r["time"] != 50:
                                ctx.fail("sub map command", case, "%r" % scan)
                                continue
                            nf = r["npixelsfast"]
                            gf = [r["startfast"] + (r["endfast"] - r["startfast"]) * (i + 0.5) / nf for i in range(nf)]
                            ns = r["nstepsslow"]
                            gs = [r["startslow"] + (r["endslow"] - r["startslow"]) * i / ns for i in range(ns + 1)] if ns else [r["startslow"]]
                            for nm, got, full, s, p, key in (("fast", gf, fast, sl[0], pf, "f"), ("slow", gs, slow, sl[1], ps, "s")):
                                if not near(got, full[slice(*s)]):
                                    ctx.fail("sub map " + nm, case, "%r scans %s instead of %s" % (scan, got, full[slice(*s)]))
                                    continue
                                half = rng * k["sampy" if key == "f" else "sampz"] / 2
                                for x, y, e in ((p - half, got[0], ends[key + "d"][0]), (p + half, got[-1], ends[key + "d"][1])):
                                    if abs(abs(x - y) - e) > 1e-9:
                                        ctx.fail("sub map extent", case, "%r scans %s for %s to %s" % (scan, got, p - half, p + half))
                            mv = move.split()
                            mv = dict(zip(mv[1::2], mv[2::2]))
                            if mv.get("other") != "5" or not abs(float(mv["sampz"]) - gs[0]) < 1e-9 or not abs(float(mv["sampy"]) - gf[0]) < 1e-9:
                                ctx.fail("sub map move", case, "%r" % move)
                        except Exception as e:  # noqa
                            ctx.fail("sub map raises", case, "%s raises %r" % (case, e))
                        ctx.trans(1)


NAMES = ["samy", "sampy", "sampz", "Energy MONO", "mono"]
LABELS = ["mono", "Counter A", "b"]
SCANS = [
    # command, points, radix
    ("zapline mono 7.1 7.2 4 100", 3, None),
    ("zapline sampy 0 1 4 100", 2, None),
    ("zapline mono 7.1 7.2 4 100", 0, None),
    ("zapenergy SUM 2 100", 2, None),
    ("zapenergy SUM 3 100", 2, None),
    ("zapenergy SUM2 2 100", 2, None),
    ("zapimage sampy 0 2 8 100 sampz -3 -1 4", 2, "mapa"),
    ("puzzle sampy 4 0 4 sampz 1 1 0 100", 1, "mapb"),
    ("ascan samy 0 1 10 0.1", 2, None),
    ("mesh sampy 0 1 2 sampz 0 3 4 0.5", 2, None),
]


def specfile(fn, scans):
    """Write a spec file, returns what it contains"""
    out = []
    with open(fn, "w") as f:
        f.write("#F test.spec\n#E 1\n#D Thu Nov 19 01:22:06 2026\n#O0 samy  sampy  sampz\n#O1 Energy MONO  mono\n\n")
        for i, s in enumerate(scans):
            cmd, npt, radix = SCANS[s]
            nr = 2 * i + 1
            pos = [nr + 0.5, -nr, 10 * nr, 7 + nr / 8.0, 3]
            data = [[nr * 100 + p * 10 + c for c in range(len(LABELS))] for p in range(npt)]
            f.write("#S %d %s\n#D Thu Nov 19 01:22:06 2026\n" % (nr, cmd))
            f.write("#P0 %s\n#P1 %s\n" % (" ".join(map(str, pos[:3])), " ".join(map(str, pos[3:]))))
            if radix:
                f.write("#C a comment\n#C DIRECTORY: /data/%s\n#C RADIX: %s\n#C ZAP SCAN NUMBER: %d\n#C ZAP IMAGE NUMBER: 0\n" % (radix, radix, nr))
            f.write("#N %d\n#L %s\n" % (len(LABELS), "  ".join(LABELS)))
            for row in data:
                f.write(" ".join(map(str, row)) + "\n")
            f.write("\n")
            out.append((nr, cmd, pos, data, radix))
    return out


def check_specfile(scans, fn, ctx):
    from spectrocrunch.io import spec

    case = {"specfile": list(scans)}
    ctx.current = case
    content = specfile(fn, scans)
    ctx.tick(1, "spec files")

    def bad(sig, msg):
        ctx.fail("spec file " + sig, case, "%s: %s" % ([SCANS[s][0] for s in scans], msg))

    try:
        f = spec.spec(fn)
        for nr, cmd, pos, data, radix in content:
            ref = reference(cmd)
            got = f.scancommand(nr)
            if dict(got, time=0) != dict(ref, time=0):
                bad("command", "%s" % got)
            for mots in (["samy"], ["mono", "sampz"], ["ENERGY mono", "Sampy"], NAMES):
                low = [n.lower() for n in NAMES]
                want = [pos[low.index(m.lower())] for m in mots]
                if not near(f.getmotorvalues(nr, mots), want) or not near(f.getmotorvalues(nr, mots[0]), want[0]):
                    bad("motors", "%s %s" % (mots, f.getmotorvalues(nr, mots)))
                if f.hasmotors(nr, mots + ["no"]) != [True] * len(mots) + [False] or f.hasmotors(nr, "no") or not f.hasmotors(nr, mots[0]):
                    bad("motors", "%s" % f.hasmotors(nr, mots + ["no"]))
                dims = f.getdimensions(nr, mots)
                if sorted(dims) != sorted(mots):
                    bad("dimensions", "%s" % dims)
                else:
                    for m, p in zip(mots, want):
                        w = [p]
                        for ax in ("fast", "slow"):
                            if ref.get("mot" + ax, "").lower() == m.lower():
                                a, b = ref["start" + ax], ref["end" + ax]
                                e = (b - a) / ref["npixelsfast"] / 2 if ax == "fast" and "npixelsfast" in ref else 0
                                w = [a + e, b - e]
                        if not near(np.atleast_1d(dims[m]), w):
                            bad("dimensions", "%s of scan %d: %s instead of %s" % (m, nr, dims[m], w))
            if not data:
                continue  # cannot be loaded by PyMca
            if list(f.labels(nr)) != LABELS:
                bad("labels", "%s" % f.labels(nr))
            if f.haslabels(nr, ["MONO", "x", "b"]) != [True, False, True] or not f.haslabels(nr, "counter a") or f.haslabels(nr, "counter"):
                bad("labels", "has")
            if data:
                for k in range(1, 4):
                    for lbls in itertools.permutations(range(3), k):
                        names = [LABELS[i] if i % 2 else LABELS[i].upper() for i in lbls]
                        want = [[row[i] for i in lbls] for row in data]
                        d1, loc = f.getdata(nr, names)
                        if not near(d1, want) or not near(f.getdata2(nr, names), want):
                            bad("data", "%s %s" % (names, d1))
                if not near(f.getdata2(nr), data):
                    bad("data", "%s" % f.getdata2(nr))
            if radix:
                loc = f.getxialocation(nr)
                if loc["DIRECTORY"] != "/data/" + radix or loc["RADIX"] != radix or int(loc["ZAP SCAN NUMBER"]) != nr or int(loc["ZAP IMAGE NUMBER"]) != 0:
                    bad("location", "%s" % loc)
        for missing in (2, 99):
            try:
                f.getdata(missing)
                bad("missing", "scan %d" % missing)
            except KeyError:
                pass
        # images
        for units in ({}, {"sampy": "um", "sampz": "mm"}):
            got = f.getimages(motors=["samy", "nothere", "Mono"], units=units)
            want = [(nr, reference(cmd), pos, radix) for nr, cmd, pos, data, radix in content if radix]
            if list(got) != ["%s_%d" % (radix, nr) for nr, _, _, radix in want]:
                bad("images", "%s" % list(got))
                continue
            for nr, ref, pos, radix in want:
                g = got["%s_%d" % (radix, nr)]
                if g["specnumber"] != str(nr) or g["scansize"] != "%d x %d" % (ref["npixelsfast"], ref["nstepsslow"] + 1) or g["puzzle"] != (ref["name"] == "puzzle"):
                    bad("images", "%s" % g)
                if g["scandir"] != "/data/" + radix or g["scanname"] != radix or int(g["scannumber"]) != nr:
                    bad("images", "%s" % g)
                if not near(g["motors"], [pos[0], np.nan, pos[4]]):
                    bad("images", "%s" % g)
                ps = [(ref["endfast"] - ref["startfast"]) / ref["npixelsfast"], (ref["endslow"] - ref["startslow"]) / max(ref["nstepsslow"], 1)]
                ss = [ref["endfast"] - ref["startfast"] - ps[0], ref["endslow"] - ref["startslow"]]
                for key, val in (("pixelsize", ps), ("scansize_units", ss)):
                    parts = g[key].split(" x ")
                    if not near([float(p.split()[0]) for p in parts], val):
                        bad("images", "%s %s instead of %s" % (key, g[key], val))
                    if units and [p.split()[1] for p in parts] != ["micrometer", "millimeter"]:
                        bad("images", "%s %s" % (key, g[key]))
        got = f.getregexscans(r"zapline (?P<mot>\S+) (?P<start>\S+)")
        want = {nr: {"mot": cmd.split()[1], "start": cmd.split()[2]} for nr, cmd, _, _, _ in content if cmd.startswith("zapline")}
        if dict(got) != want:
            bad("search", "%s" % got)
        # energy scans and their groups
        for skip, lo, hi in (([], None, None), ([1], None, None), ([], 3, None), ([], None, 3)):
            info = []
            bad2 = False
            for nr, cmd, pos, data, radix in content:
                if nr in skip or (lo and nr < lo) or (hi and nr > hi) or not data:
                    continue
                t = cmd.split()
                if t[:2] == ["zapline", "mono"]:
                    info.append({"scannumber": nr, "repeats": 1})
                elif t[:2] == ["zapenergy", "SUM"]:
                    info.append({"scannumber": nr, "repeats": int(t[2])})
                elif t[:2] == ["zapenergy", "SUM2"]:
                    # a second sum replaces the sum right before it
                    if not info or info[-1]["repeats"] == 1:
                        bad2 = True
                        break
                    info[-1] = {"scannumber": nr, "repeats": int(t[2])}
            if bad2:
                continue
            got = f.extractxanesinfo(skip=skip, nrmin=lo, nrmax=hi)
            if got != info:
                bad("energy scans", "%s instead of %s" % (got, info))
                continue
            for keepsum, ingroups, single in itertools.product((False, True), repeat=3):
                got = f.extractxanesginfo(keepsum=keepsum, sumingroups=ingroups, keepindividual=single, skip=skip, nrmin=lo, nrmax=hi)
                want = groups(info, keepsum, ingroups, single)
                if got != want:
                    bad("energy groups", "keepsum=%s sumingroups=%s keepindividual=%s: %s instead of %s" % (keepsum, ingroups, single, got, want))
            x = f.extractxanes([i["scannumber"] for i in info], LABELS[:2])
            for i in info:
                nr = i["scannumber"]
                data = [c for c in content if c[0] == nr][0][3]
                if nr not in x or x[nr]["repeats"] != i["repeats"] or not near(x[nr]["data"], [r[:2] for r in data]) or abs(x[nr]["time"].to("ms").magnitude - 100) > 1e-6 or x[nr]["labels"] != ["%s.%d" % (k, nr) for k in LABELS[:2]]:
                    bad("energy data", "%s" % x.get(nr))
    except Exception as e:  # noqa
        bad("raises %s" % type(e).__name__, "raises %r" % e)
    ctx.trans(1)
    ctx.state(tuple(scans))


def groups(info, keepsum, ingroups, single):
    """A sum of n scans belongs to the (at most) n single scans right before it"""
    out = []
    left = [True] * len(info)
    for i, s in enumerate(info):
        n = s["repeats"]
        if n == 1:
            continue
        members = []
        for k in range(i - 1, max(i - n, 0) - 1, -1):
            if info[k]["repeats"] != 1:
                break
            members.insert(0, k)
        g = [info[k]["scannumber"] for k in members]
        for k in members:
            left[k] = single
        if not keepsum:
            left[i] = False
        elif ingroups:
            g.append(s["scannumber"])
            left[i] = single
        if g:
            out.append(g)
    return out + [[s["scannumber"]] for s, k in zip(info, left) if k]


def check_spectra(ctx):
    from spectrocrunch.io import mca

    fn = os.path.join(ctx.scratch, "a.mca")
    for n in list(range(1, 41)):
        for pat in (0, 1, 2):
            v = np.array([[k, 1.5 * k + 0.25, (k * 7919) % 100003][pat] for k in range(1, n + 1)], dtype=float)
            for zero, gain in ((0, 1), (-0.5, 0.005)):
                for ch0 in (None, 0, 10):
                    case = {"spectrum": [n, pat, zero, gain, ch0]}
                    ctx.current = case
                    ctx.tick(1, "spectra")
                    try:
                        mca.save(v, fn, zero=zero, gain=gain, ch0=ch0)
                        got, ch, energy, coeff = mca.read(fn)
                        c = np.arange(n) + (ch0 or 0)
                        if not near(got, v):
                            ctx.fail("spectrum", case, "%s instead of %s" % (got, v))
                        elif not near(ch, c):
                            ctx.fail("spectrum channels", case, "%s instead of %s" % (ch, c))
                        elif not near(energy, zero + gain * c) or not near(coeff[:2], [zero, gain]):
                            ctx.fail("spectrum energy", case, "%s %s" % (energy, coeff))
                    except Exception as e:  # noqa
                        ctx.fail("spectrum raises", case, "%s raises %r" % (case, e))
                    ctx.trans(1)


NP = 8


def worker_init():
    import warnings
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import spectrocrunch.io.spec  # noqa
    import spectrocrunch.io.mca  # noqa


def shards(tier):
    t = tier == "thorough"
    out = []
    for name, forms in FORMS.items():
        for i in range(len(forms)):
            out += [{"what": "commands", "name": name, "form": i, "depth": 3 if t else 2, "part": p} for p in range(NP if t else 1)]
            out.append({"what": "mutations", "name": name, "form": i})
    out += [{"what": "positions"}, {"what": "submap"}, {"what": "spectra"}]
    out += [{"what": "headers", "part": p} for p in range(NP)]
    out += [{"what": "specfiles", "n": 4 if t else 3, "part": p} for p in range(2 * NP)]
    return out


def run_shard(shard, ctx):
    w = shard["what"]
    if w == "commands":
        for i, c in enumerate(commands(shard["name"], FORMS[shard["name"]][shard["form"]], shard["depth"])):
            if shard["depth"] == 2 or i % NP == shard["part"]:
                check_command(c, ctx)
                ctx.trans(1)
    elif w == "mutations":
        for c in sorted(set(mutations(shard["name"], FORMS[shard["name"]][shard["form"]]))):
            check_command(c, ctx)
            ctx.trans(1)
    elif w == "headers":
        for i, h in enumerate(headers()):
            if i % NP == shard["part"]:
                if usable(h):
                    check_header(*h, ctx)
    elif w == "specfiles":
        fn = os.path.join(ctx.scratch, "a.spec")
        i = 0
        for n in range(shard["n"] + 1):
            for s in itertools.product(range(len(SCANS)), repeat=n):
                i += 1
                if i % (2 * NP) == shard["part"] and n:
                    check_specfile(s, fn, ctx)
                    os.remove(fn)
    else:
        {"positions": check_positions, "submap": check_submap, "spectra": check_spectra}[w](ctx)
    ctx.trace(1)
    ctx.sample(shard)


def usable(h):
    """Compensation needs compatible units"""
    cmd, labels, units, comp, names, have, dims = h
    return all(bool(units.get(m)) == bool(units.get(c)) for m, cs in comp.items() for c in cs if c != "nothere")


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if "command" in case:
        check_command(case["command"], ctx)
    elif "positions" in case:
        check_positions(ctx)
    elif "header" in case:
        h = list(case["header"])
        h[6] = tuple(h[6]) if h[6] else None
        check_header(*h, ctx)
    elif "submap" in case:
        check_submap(ctx)
    elif "specfile" in case:
        check_specfile(tuple(case["specfile"]), os.path.join(ctx.scratch, "a.spec"), ctx)
    else:
        check_spectra(ctx)
