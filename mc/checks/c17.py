"""C17: formulas, compounds, mixtures and layers against element counts."""

import itertools
import warnings

import numpy as np

from mc.checks import tasklib

LEVEL = "model_checking"
BOUNDS = {
    "quick": "fraction conversions of all compositions of up to 3 components (5 amounts, 3 molar masses, 3 densities); all formulas of 1 and 2 terms (5 elements, 7 multipliers, 100 groups of up to 2 terms and nested groups), of 3 terms from 36 terms and groups, and all strings of up to 4 characters of an alphabet of 7; all histories of up to 2 operations (adding, changing, setting fractions; 3 kinds of fraction) on 10 compounds and 12 mixtures; cross sections for all scatterer markings; all stacks of up to 2 layers",
    "thorough": "4 components; formulas of 4 terms from 15; strings of 5 characters; histories of 3 operations; 3 layers",
}
ASSUMPTIONS = ["atomic weights, atomic numbers and element densities are those of xraylib", "compounds with the same name are the same material"]

TOL = 1e-9


def worker_init():
    tasklib.quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def weight(el):
    import xraylib

    return xraylib.AtomicWeight(xraylib.SymbolToAtomicNumber(el))


def number(el):
    import xraylib

    return xraylib.SymbolToAtomicNumber(el)


def eldensity(el):
    import xraylib

    return xraylib.ElementDensity(xraylib.SymbolToAtomicNumber(el))


def norm(d):
    t = sum(d.values())
    return {k: v / t for k, v in d.items()}


def near(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same(a, b, tol=TOL):
    """a: objects as keys, b: names"""
    a = {str_(k): v for k, v in a.items()}
    return set(a) == set(b) and all(near(a[k], b[k], tol) for k in b)


def str_(k):
    return k if isinstance(k, str) else k.name


# ---------------------------------------------------------------- conversions
def run_fractions(shard, ctx):
    from spectrocrunch.materials import stoichiometry as st

    amounts = [0.0, 0.25, 1.0, 2.0, 3.5]
    MMs = [1.0, 16.0, 55.5]
    rhos = [0.5, 1.0, 7.8]
    n = shard["n"]
    for x in itertools.product(amounts, repeat=n):
        if x[0] != shard["first"] or not sum(x):
            continue
        x = np.array(x)
        for MM, rho in itertools.product(itertools.product(MMs, repeat=n), itertools.product(rhos, repeat=n)):
            MM, rho = np.array(MM), np.array(rho)
            ctx.tick()
            ctx.state((tuple(x), tuple(MM), tuple(rho)))
            ctx.trace(1)
            case = {"kind": "fractions", "x": x.tolist(), "MM": MM.tolist(), "rho": rho.tolist()}
            ctx.current = case
            one_fraction(st, x, MM, rho, case, ctx)
    ctx.outcome("fractions")


def one_fraction(st, x, MM, rho, case, ctx):
    moles, mass, vol = x / x.sum(), x * MM / (x * MM).sum(), x * MM / rho / (x * MM / rho).sum()
    total = (x * MM).sum()

    def ck(name, got, exp):
        if not np.allclose(got, exp, rtol=1e-12, atol=1e-14):
            ctx.fail(name, case, "%s of moles %s, molar masses %s, densities %s: %s instead of %s" % (name, x, MM, rho, got, exp))

    for scale in (1.0, 2.0):  # not necessarily normalized
        ck("frac_mole_to_weight", st.frac_mole_to_weight(moles * scale, MM), mass)
        ck("frac_mole_to_volume", st.frac_mole_to_volume(moles * scale, rho, MM), vol)
        ck("frac_weight_to_mole", st.frac_weight_to_mole(mass * scale, MM), moles)
        ck("frac_weight_to_volume", st.frac_weight_to_volume(mass * scale, rho), vol)
        ck("frac_volume_to_weight", st.frac_volume_to_weight(vol * scale, rho), mass)
        ck("frac_volume_to_mole", st.frac_volume_to_mole(vol * scale, rho, MM), moles)
        ck("density_from_molefrac", st.density_from_molefrac(moles * scale, rho, MM), total / (x * MM / rho).sum())
    ck("density_from_volumefrac", st.density_from_volumefrac(vol, rho), total / (x * MM / rho).sum())
    ck("density_from_massfrac", st.density_from_massfrac(mass, rho), total / (x * MM / rho).sum())
    ck("molarmass_from_wfrac", st.molarmass_from_wfrac(mass, MM), total / x.sum())
    for new in ([0.0], [0.25], [0.5, 0.25], [1.0]):
        new = np.array(new)
        f = 1 - new.sum()
        ck("add_frac", st.add_frac(x, new), np.append(x * f, new * x.sum()))
    try:
        st.add_frac(x, np.array([0.75, 0.5]))
    except ValueError:
        pass
    else:
        ctx.fail("add_frac-more", case, "add_frac accepts new fractions adding to more than 1")


# ---------------------------------------------------------------- formulas
MULT = ["", "1", "2", "12", "0.5", "1.25", ".5"]
ELS = ["H", "O", "C", "Co", "He"]


def terms(depth):
    """(text, counts)"""
    for el in ELS if depth == 0 else ["H", "Co", "O"]:
        for m in MULT if depth == 0 else ["", "2", "0.5"]:
            yield el + m, {el: float(m or 1)}


def groups(depth, nterms):
    inner = list(terms(depth))
    if depth < 2:
        inner += [g for g in groups(depth + 1, 1 if depth else 2) if g[0][-1] in ")25"][:: 1 if depth else 4]
    if depth == 0 and nterms > 2:  # smaller alphabet
        inner = list(terms(1)) + list(groups(1, 1))[: 27 if nterms == 3 else 6]
    for k in range(1, nterms + 1):
        for ts in itertools.product(inner, repeat=k):
            if depth and k > 1 and ts[0][0] > ts[1][0]:
                continue
            text = "".join(t for t, c in ts)
            counts = {}
            for t, c in ts:
                for e, n in c.items():
                    counts[e] = counts.get(e, 0) + n
            if depth == 0:
                yield text, counts
            else:
                for m in ["", "3", "1.5"]:
                    yield "(" + text + ")" + m, {e: n * float(m or 1) for e, n in counts.items()}


def parse(s):
    """Independent parser: dict or None when this is not a formula"""
    pos = 0

    def num():
        nonlocal pos
        a = pos
        while pos < len(s) and s[pos].isdigit():
            pos += 1
        i = pos > a
        if pos < len(s) and s[pos] == ".":
            b = pos
            pos += 1
            while pos < len(s) and s[pos].isdigit():
                pos += 1
            if not i and pos == b + 1:
                raise ValueError
        return float(s[a:pos]) if pos > a else 1.0

    def seq(level):
        nonlocal pos
        out = {}
        n = 0
        while pos < len(s) and s[pos] != ")":
            if s[pos] == "(":
                pos += 1
                sub = seq(level + 1)
                if pos >= len(s) or s[pos] != ")":
                    raise ValueError
                pos += 1
            elif s[pos].isupper():
                el = s[pos]
                pos += 1
                if pos < len(s) and s[pos].islower():
                    el += s[pos]
                    pos += 1
                if number(el) == 0:
                    raise ValueError
                sub = {el: 1.0}
            else:
                raise ValueError
            m = num()
            for e, k in sub.items():
                out[e] = out.get(e, 0) + k * m
            n += 1
        if not n:
            raise ValueError
        return out

    try:
        out = seq(0)
        if pos != len(s):
            raise ValueError
        return out
    except ValueError:
        return None


def one_formula(text, exp, case, ctx, must=True):
    from spectrocrunch.materials import compoundfromformula

    ctx.tick()
    ctx.state(text)
    ctx.trace(1)
    ctx.current = case
    try:
        c = compoundfromformula.CompoundFromFormula(text, density=2.0)
    except Exception as e:
        if exp is not None:
            ctx.fail("formula refused " + type(e).__name__, case, "formula %r is refused: %s" % (text, e))
        ctx.outcome("refused")
        return
    if exp is None:
        if must:
            ctx.fail("formula accepted", case, "%r is read as %s" % (text, {str(k): v for k, v in c.equivalents().items()}))
        return
    ctx.outcome("%d elements" % len(exp))
    if not same(c.equivalents(), exp) or c.name != text or c.density != 2.0:
        ctx.fail("formula", case, "formula %s is read as %s instead of %s" % (text, {str(k): v for k, v in c.equivalents().items()}, exp))
    elif not same(c.massfractions(), norm({e: n * weight(e) for e, n in exp.items()})):
        ctx.fail("formula mass", case, "formula %s has mass fractions %s" % (text, c.massfractions()))


def run_formula(shard, ctx):
    for i, (text, counts) in enumerate(groups(0, shard["terms"])):
        if i % shard["of"] == shard["part"]:
            one_formula(text, counts, {"kind": "formula", "text": text}, ctx)


def run_strings(shard, ctx):
    for n in range(0, shard["n"] + 1):
        for cs in itertools.product("HCo(2.)", repeat=n):
            s = "".join(cs)
            if (n > 1 and s[0] != shard["first"]) or (n <= 1 and shard["first"] != "H"):
                continue
            one_formula(s, parse(s), {"kind": "string", "text": s}, ctx)


# ---------------------------------------------------------------- compounds
class Comp:
    """Model: moles of each element (up to a factor), density"""

    def __init__(self, moles, density):
        self.moles = moles
        self.density = density


def mole(d):
    return norm(d)


def mass(d):
    return norm({e: n * weight(e) for e, n in d.items()})


def frommass(w):
    return {e: x / weight(e) for e, x in w.items()}


def check_compound(c, moles, density, what, case, ctx):
    ok = [
        ("mole fractions", same(c.molefractions(), mole(moles)), c.molefractions(), mole(moles)),
        ("mass fractions", same(c.massfractions(), mass(moles)), c.massfractions(), mass(moles)),
        ("elemental mole fractions", same(c.elemental_molefractions(), mole(moles)), c.elemental_molefractions(), mole(moles)),
        ("elemental mass fractions", same(c.elemental_massfractions(), mass(moles)), c.elemental_massfractions(), mass(moles)),
        ("equivalents", same(norm(c.equivalents()), mole(moles)), c.equivalents(), mole(moles)),
        ("elements", sorted(map(str_, c.elements)) == sorted(moles), c.elements, sorted(moles)),
        ("number of elements", c.nelements == len(moles), c.nelements, len(moles)),
        ("density", near(c.density, density), c.density, density),
        ("molar mass", near(c.molarmass(), sum(n * weight(str_(e)) for e, n in c.elemental_equivalents().items())), c.molarmass(), None),
        ("molar mass per atom", near(c.molarmasseff(), sum(n * weight(e) for e, n in mole(moles).items())), c.molarmasseff(), None),
        ("Z", near(c.Zeff, sum(n * number(e) for e, n in mole(moles).items())), c.Zeff, sum(n * number(e) for e, n in mole(moles).items())),
    ]
    for name, good, got, exp in ok:
        if not good:
            ctx.fail(name + " " + what[0], case, "%s: %s %s instead of %s" % (" ".join(what), name, got, exp))
            return False
    return True


COMPOUNDS = [(("H",), (1,)), (("Fe",), (2,)), (("H", "O"), (2, 1)), (("Fe", "O"), (0.5, 3)), (("Fe", "H", "O"), (1, 3, 3))]
FRACTYPES = ["mole", "mass"]


def make_compound(els, amounts, fractype, density, name=None):
    from spectrocrunch.materials import compoundfromlist, types

    c = compoundfromlist.CompoundFromList(list(els), list(amounts), getattr(types.fraction, fractype), density, name=name)
    d = dict(zip(els, map(float, amounts)))
    return c, (d if fractype == "mole" else frommass(d))


def comp_ops():
    for ft in FRACTYPES:
        for el in ("O", "Fe", "Al"):
            for f in (0.25, 0.5):
                yield ("add", (el,), (f,), ft)
        yield ("add", ("Al", "O"), (0.25, 0.5), ft)
        yield ("change", ("Fe", "O"), (0.25, 0.75), ft)
        yield ("change", ("H", "Al", "O"), (1.0, 2.0, 1.0), ft)
        for el in ("H", "Fe", "O"):
            for f in (0.0, 0.25, 0.75):
                yield ("set", (el,), (f,), ft)
        yield ("set", ("Fe", "O"), (0.25, 0.5), ft)


def apply_model(parts, op, tomass, frommass_):
    """parts: name -> moles. Returns moles or None (refused)"""
    what, names, fr, ft = op
    d = parts if ft == "mole" else tomass[ft](parts)
    back = (lambda x: x) if ft == "mole" else frommass_[ft]
    if what == "change":
        return back(dict(zip(names, fr)))
    d = norm(d)
    if what == "add":
        d = {k: v * (1 - sum(fr)) for k, v in d.items()}
        for k, f in zip(names, fr):
            d[k] = d.get(k, 0) + f
        return back(d)
    if any(k not in d for k in names):
        return None
    rest = {k: v for k, v in d.items() if k not in names}
    t = sum(rest.values())
    if rest and not t:
        return False  # cannot keep the proportions of nothing
    d = {k: (fr[names.index(k)] if k in names else rest[k] * (1 - sum(fr)) / t) for k in d}
    if not sum(d.values()):
        return False
    return back(d)


def apply_real(c, op, fractype, objs=None):
    what, names, fr, ft = op
    args = [objs[n] for n in names] if objs else list(names)
    ft = getattr(fractype, ft)
    if what == "change":
        c.change_fractions(dict(zip(args, fr)), ft)
    elif what == "add":
        f = c.addcompounds if objs else c.addelements
        if len(args) == 1:
            f(args[0], fr[0], ft)
        else:
            f(args, list(fr), ft)
    else:
        f = {"mole": c.setmolefraction, "mass": c.setmassfraction, "volume": c.setvolumefraction}[op[3]]
        if len(args) == 1:
            f(args[0], fr[0])
        else:
            f(args, list(fr))


def run_compound(shard, ctx):
    from spectrocrunch.materials import types

    els, amounts = COMPOUNDS[shard["i"]]
    ops = list(comp_ops())
    hists = [()]
    for d in range(1, shard["depth"] + 1):
        hists += itertools.product(ops, repeat=d)
    for h in hists:
        if h and ops.index(h[0]) % 4 != shard["part"] or not h and shard["part"]:
            continue
        case = {"kind": "compound", "i": shard["i"], "fractype": shard["fractype"], "history": h}
        one_compound(case, ctx, types)


def one_compound(case, ctx, types):
    els, amounts = COMPOUNDS[case["i"]]
    ctx.tick()
    ctx.current = case
    ctx.trace(1)
    c, moles = make_compound(els, amounts, case["fractype"], 3.5, name="c")
    what = ["compound", str(els), str(amounts), case["fractype"]]
    ctx.state((els, amounts, case["fractype"], repr(case["history"])))
    for op in case["history"]:
        op = (op[0], tuple(op[1]), tuple(op[2]), op[3])
        what.append(repr(op))
        what[0] = op[0]
        new = apply_model(moles, op, {"mass": mass}, {"mass": frommass})
        ctx.trans(1)
        if new is False:
            return
        try:
            apply_real(c, op, types.fraction)
        except Exception as e:
            if new is None:
                ctx.outcome("refused")
                new = moles
            else:
                ctx.fail("failed compound %s %s" % (op[0], type(e).__name__), case, "%s: %s %s" % (" ".join(what), type(e).__name__, e))
                return
        else:
            if new is None:
                ctx.fail("accepted compound " + op[0], case, "%s is not refused" % (" ".join(what)))
                return
        moles = new
    if not all(np.isfinite(list(moles.values()))):
        return
    ctx.outcome("%d elements" % len(moles))
    check_compound(c, moles, 3.5, what, case, ctx)


# ---------------------------------------------------------------- mixtures
DEFS = {"water": (("H", "O"), (2, 1), 1.0), "rust": (("Fe", "O"), (2, 3), 5.25), "oil": (("C", "H"), (1, 2), 0.8), "iron": (("Fe",), (1,), 7.5)}
MIXES = [(("water",), (1,)), (("water", "rust"), (1, 3)), (("rust", "water", "oil"), (0.25, 0.5, 0.25)), (("iron", "rust"), (2, 1))]
MFT = ["mole", "mass", "volume"]


def cmm(c):
    return sum(n * weight(e) for e, n in zip(DEFS[c][0], DEFS[c][1]))


def crho(c):
    return DEFS[c][2]


MTO = {
    "mass": lambda d: norm({c: n * cmm(c) for c, n in d.items()}),
    "volume": lambda d: norm({c: n * cmm(c) / crho(c) for c, n in d.items()}),
}
MFROM = {
    "mass": lambda d: {c: x / cmm(c) for c, x in d.items()},
    "volume": lambda d: {c: x * crho(c) / cmm(c) for c, x in d.items()},
}


def objects():
    return {n: make_compound(e, a, "mole", rho, name=n)[0] for n, (e, a, rho) in DEFS.items()}


def flat(parts):
    out = {}
    for c, n in parts.items():
        for e, k in zip(*DEFS[c][:2]):
            out[e] = out.get(e, 0) + n * k
    return out


def check_mixture(m, parts, what, case, ctx):
    checks = [("mole", m.molefractions(), norm(parts)), ("mass", m.massfractions(), MTO["mass"](parts)), ("volume", m.volumefractions(), MTO["volume"](parts))]
    for name, got, exp in checks:
        if not same(got, exp):
            ctx.fail("%s fractions %s" % (name, what[0]), case, "%s: %s fractions %s instead of %s" % (" ".join(what), name, got, exp))
            return
    density = sum(n * cmm(c) for c, n in parts.items()) / sum(n * cmm(c) / crho(c) for c, n in parts.items())
    if not check_compound_like(m, flat(parts), density, ["mixture " + what[0]] + what[1:], case, ctx):
        return
    c = m.tocompound(name="flat")
    check_compound(c, flat(parts), density, ["flattened " + what[0]] + what[1:], case, ctx)


def check_compound_like(m, moles, density, what, case, ctx):
    ok = [
        ("elemental mole fractions", same(m.elemental_molefractions(), mole(moles)), m.elemental_molefractions(), mole(moles)),
        ("elemental mass fractions", same(m.elemental_massfractions(), mass(moles)), m.elemental_massfractions(), mass(moles)),
        ("elemental equivalents", same(norm(m.elemental_equivalents()), mole(moles)), m.elemental_equivalents(), mole(moles)),
        ("elements", sorted(map(str_, m.elements)) == sorted(moles), m.elements, sorted(moles)),
        ("density", near(m.density, density), m.density, density),
        ("molar mass", near(m.molarmass(), sum(n * weight(str_(e)) for e, n in m.elemental_equivalents().items())), m.molarmass(), None),
        ("molar mass per atom", near(m.molarmasseff(), sum(n * weight(e) for e, n in mole(moles).items())), m.molarmasseff(), None),
        ("Z", near(m.Zeff, sum(n * number(e) for e, n in mole(moles).items())), m.Zeff, sum(n * number(e) for e, n in mole(moles).items())),
    ]
    for name, good, got, exp in ok:
        if not good:
            ctx.fail(name + " " + what[0], case, "%s: %s %s instead of %s" % (" ".join(what), name, got, exp))
            return False
    return True


def mix_ops():
    for ft in MFT:
        for c in ("water", "iron"):
            for f in (0.25, 0.5):
                yield ("add", (c,), (f,), ft)
        yield ("add", ("iron", "oil"), (0.25, 0.5), ft)
        yield ("change", ("rust", "iron"), (0.25, 0.75), ft)
        for c in ("water", "rust"):
            for f in (0.0, 0.75):
                yield ("set", (c,), (f,), ft)
        yield ("set", ("rust", "water"), (0.25, 0.5), ft)


def run_mixture(shard, ctx):
    ops = list(mix_ops())
    hists = [()]
    for d in range(1, shard["depth"] + 1):
        hists += itertools.product(ops, repeat=d)
    for h in hists:
        if h and ops.index(h[0]) % 4 != shard["part"] or not h and shard["part"]:
            continue
        one_mixture({"kind": "mixture", "i": shard["i"], "fractype": shard["fractype"], "history": h}, ctx)


def one_mixture(case, ctx):
    from spectrocrunch.materials import mixture, types

    names, amounts = MIXES[case["i"]]
    ctx.tick()
    ctx.current = case
    ctx.trace(1)
    ctx.state((names, amounts, case["fractype"], repr(case["history"])))
    objs = objects()
    m = mixture.Mixture([objs[n] for n in names], list(amounts), getattr(types.fraction, case["fractype"]), name="m")
    parts = dict(zip(names, map(float, amounts)))
    if case["fractype"] != "mole":
        parts = MFROM[case["fractype"]](parts)
    what = ["mixture", str(names), str(amounts), case["fractype"]]
    for op in case["history"]:
        op = (op[0], tuple(op[1]), tuple(op[2]), op[3])
        what.append(repr(op))
        what[0] = op[0]
        new = apply_model(parts, op, MTO, MFROM)
        ctx.trans(1)
        if new is False:
            return
        try:
            apply_real(m, op, types.fraction, objs)
        except Exception as e:
            if new is None:
                ctx.outcome("refused")
                new = parts
            else:
                ctx.fail("failed mixture %s %s" % (op[0], type(e).__name__), case, "%s: %s %s" % (" ".join(what), type(e).__name__, e))
                return
        else:
            if new is None:
                ctx.fail("accepted mixture " + op[0], case, "%s is not refused" % (" ".join(what)))
                return
        parts = new
    ctx.outcome("%d compounds" % len(parts))
    check_mixture(m, parts, what, case, ctx)
    for n, (e, a, rho) in DEFS.items():  # components are not changed
        if not same(objs[n].equivalents(), dict(zip(e, a))) or objs[n].density != rho:
            ctx.fail("component changed", case, "%s: %s is now %s" % (" ".join(what), n, objs[n].equivalents()))


# ---------------------------------------------------------------- cross sections
METHODS = ["mass_att_coeff", "mass_abs_coeff", "scattering_cross_section", "compton_cross_section", "rayleigh_cross_section"]
SCAT = METHODS[2:]


def run_cross(shard, ctx):
    from spectrocrunch.materials import mixture, types, element
    from spectrocrunch.materials.utils import elemental_crosssections

    E = np.array([5.0, 8.0, 20.0])
    names, amounts = MIXES[shard["i"]]
    for ft in MFT:
        for marks in itertools.product((True, False), repeat=len(names)):
            objs = objects()
            m = mixture.Mixture([objs[n] for n in names], list(amounts), getattr(types.fraction, ft), name="m")
            for n, x in zip(names, marks):
                if not x:
                    objs[n].unmarkscatterer()
            w = {c: v for c, v in m.massfractions().items()}
            for method, e in itertools.product(METHODS, (E, E[:1], 8.0)):
                case = {"kind": "cross", "shard": shard, "fractype": ft, "marks": marks, "method": method}
                ctx.tick()
                ctx.trans(1)
                ctx.trace(1)
                ctx.state(repr((names, ft, marks, method, np.shape(e))))
                ctx.current = case
                exp = np.zeros(np.shape(e))
                for c, v in w.items():
                    part = np.zeros(np.shape(e))
                    if method not in SCAT or marks[names.index(str_(c))]:
                        for el, x in c.massfractions().items():
                            part = part + x * getattr(element.Element(str_(el)), method)(e)
                    got = getattr(c, method)(e)
                    if not np.allclose(got, part, rtol=1e-9) or np.shape(got) != np.shape(part):
                        ctx.fail("compound " + method, case, "%s of %s: %s instead of %s" % (method, c, got, part))
                    exp = exp + v * part
                try:
                    got = getattr(m, method)(e)
                    dec = getattr(m, method)(e, decomposed=True)
                except Exception as ex:
                    ctx.fail("failed %s %s" % (method, type(ex).__name__), case, "%s of mixture %s with scatterers %s: %s %s" % (method, names, marks, type(ex).__name__, ex))
                    continue
                what = "%s of mixture %s %s (%s) with scatterers %s at %s" % (method, names, amounts, ft, marks, e)
                if got is None or np.shape(got) != np.shape(exp) or not np.allclose(got, exp, rtol=1e-9):
                    ctx.fail("mixture " + method, case, "%s: %s instead of %s" % (what, got, exp))
                    continue
                ctx.outcome(method)
                tot = m.cs_collapse(dec)
                els = elemental_crosssections(dec)
                if not np.allclose(tot, exp, rtol=1e-9) or not np.allclose(sum(els.values()), exp, rtol=1e-9):
                    ctx.fail("decomposed " + method, case, "%s: collapsed %s, by element %s, instead of %s" % (what, tot, els, exp))
                ws, cs = m.csdict_parse(dec)
                if not np.allclose(sum(a * b for a, b in zip(ws, cs)), exp, rtol=1e-9):
                    ctx.fail("parsed " + method, case, "%s: %s %s" % (what, ws, cs))
                byel = m.csdict_parse_elements(dec)
                if not np.allclose(sum(byel.values()), exp, rtol=1e-9) or any(not np.allclose(byel[k], els[k], rtol=1e-9) for k in els):
                    ctx.fail("parsed elements " + method, case, "%s: %s" % (what, byel))
            f = m.tocompound(name="flat")
            for method in METHODS[:2]:
                if not np.allclose(f.__getattribute__(method)(E), getattr(m, method)(E), rtol=1e-9):
                    ctx.fail("flattened " + method, {"kind": "cross", "shard": shard}, "%s of flattened mixture %s %s" % (method, names, ft))


# ---------------------------------------------------------------- layers
class Geometry:
    cosnormin = 0.5
    cosnormout = -0.25


def run_layers(shard, ctx):
    from spectrocrunch.materials import multilayer, mixture, types

    E = np.array([5.0, 8.0])
    mats = ["water", "iron", "mix"]
    for n in range(1, shard["n"] + 1):
        for names in itertools.product(mats, repeat=n):
            if names[0] != shard["first"]:
                continue
            for thick in itertools.product((1e-4, 5e-4, 2e-3), repeat=n):
                objs = objects()
                objs["mix"] = mixture.Mixture([objs["oil"], objs["rust"]], [1, 2], types.fraction.mass, name="mix")
                case = {"kind": "layers", "shard": shard, "names": names, "thickness": thick}
                ctx.tick()
                ctx.trans(1)
                ctx.trace(1)
                ctx.state((names, thick))
                ctx.current = case
                ml = multilayer.Multilayer(material=[objs[k] for k in names], thickness=list(thick), geometry=Geometry(), name="ml")
                area = {}
                A = 0
                for k, t in zip(names, thick):
                    for e, w in objs[k].elemental_massfractions().items():
                        area[str_(e)] = area.get(str_(e), 0) + w * t * objs[k].density
                    A = A + objs[k].mass_att_coeff(E) * objs[k].density * t / 0.5
                what = "layers %s of %s cm" % (names, thick)
                moles = {e: a / weight(e) for e, a in area.items()}
                mix = ml.mixlayers()
                checks = [
                    ("areal density", same(ml.arealdensity(), area), ml.arealdensity(), area),
                    ("elemental mass fractions", same(ml.elemental_massfractions(), norm(area)), ml.elemental_massfractions(), norm(area)),
                    ("mixed layers mass fractions", same(mix.elemental_massfractions(), norm(area)), mix.elemental_massfractions(), norm(area)),
                    ("elemental mole fractions", same(ml.elemental_molefractions(), norm(moles)), ml.elemental_molefractions(), norm(moles)),
                    ("elemental equivalents", same(norm(ml.elemental_equivalents()), norm(moles)), ml.elemental_equivalents(), norm(moles)),
                    ("mixed layers density", near(mix.density * sum(thick), sum(area.values())), mix.density, sum(area.values()) / sum(thick)),
                    ("absorbance", np.allclose(ml.absorbance(E), A, rtol=1e-9), ml.absorbance(E), A),
                    ("transmission", np.allclose(ml.transmission(E), np.exp(-A), rtol=1e-9), ml.transmission(E), np.exp(-A)),
                    ("thickness", np.allclose(ml.thickness, thick), ml.thickness, thick),
                    ("thickness along beam", np.allclose(ml.xraythicknessin, np.array(thick) / 0.5), ml.xraythicknessin, None),
                    ("thickness to detector", np.allclose(ml.xraythicknessout, np.array(thick) / -0.25), ml.xraythicknessout, None),
                ]
                ctx.outcome("%d layers" % n)
                for name, good, got, exp in checks:
                    if not good:
                        ctx.fail("layers " + name, case, "%s: %s %s instead of %s" % (what, name, got, exp))
                        break


# ---------------------------------------------------------------- names
def run_names(shard, ctx):
    from spectrocrunch.materials import compoundfromname

    for name in sorted(compoundfromname.getnames()):
        case = {"kind": "names", "name": name}
        ctx.tick()
        ctx.state(name)
        ctx.trace(1)
        ctx.current = case
        try:
            c = compoundfromname.compoundfromname(name)
        except Exception as e:
            ctx.fail("name " + type(e).__name__, case, "compound %s: %s %s" % (name, type(e).__name__, e))
            continue
        ctx.outcome("name")
        w = c.elemental_massfractions()
        if w and not near(sum(w.values()), 1):
            ctx.fail("name fractions", case, "compound %s: mass fractions %s" % (name, w))
        m = c.elemental_molefractions()
        if m and not same(norm({e: n * weight(str_(e)) for e, n in m.items()}), {str_(k): v for k, v in w.items()}):
            ctx.fail("name moles", case, "compound %s: mole fractions %s, mass fractions %s" % (name, m, w))
        if name not in compoundfromname.search(name):
            ctx.fail("name search", case, "searching %s gives %s" % (name, compoundfromname.search(name)))
        # what is done with it does not change the next one of that name
        if hasattr(c, "addelements") and m:
            ref = {str_(k): v for k, v in m.items()}
            c.addelements("U", 0.5, "mass")
            d = compoundfromname.compoundfromname(name)
            if not same(d.elemental_molefractions(), ref):
                ctx.fail("name changed", case, "compound %s: adding to it changes the next one to %s" % (name, d.elemental_molefractions()))


# ---------------------------------------------------------------- shards
def shards(tier):
    t = tier == "thorough"
    out = [{"kind": "fractions", "n": n, "first": f} for n in range(1, 4 + t) for f in (0.0, 0.25, 1.0, 2.0, 3.5)]
    out += [{"kind": "formula", "terms": n, "part": p, "of": 8} for n in ((2, 3) if not t else (2, 3, 4)) for p in range(8)]
    out += [{"kind": "string", "first": c, "n": 5 if t else 4} for c in "HCo(2.)"]
    depth = 3 if t else 2
    for i in range(len(COMPOUNDS)):
        for ft in FRACTYPES:
            out += [{"kind": "compound", "i": i, "fractype": ft, "depth": depth, "part": p} for p in range(4)]
    for i in range(len(MIXES)):
        for ft in MFT:
            out += [{"kind": "mixture", "i": i, "fractype": ft, "depth": depth, "part": p} for p in range(4)]
        out.append({"kind": "cross", "i": i})
    out += [{"kind": "layers", "first": f, "n": 3 if t else 2} for f in ("water", "iron", "mix")]
    return out + [{"kind": "names"}]


RUN = {
    "fractions": run_fractions,
    "formula": run_formula,
    "string": run_strings,
    "compound": run_compound,
    "mixture": run_mixture,
    "cross": run_cross,
    "layers": run_layers,
    "names": run_names,
}


def run_shard(shard, ctx):
    RUN[shard["kind"]](shard, ctx)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    k = case["kind"]
    if k == "fractions":
        from spectrocrunch.materials import stoichiometry as st

        one_fraction(st, np.array(case["x"]), np.array(case["MM"]), np.array(case["rho"]), case, ctx)
    elif k in ("formula", "string"):
        one_formula(case["text"], parse(case["text"]), case, ctx)
    elif k == "compound":
        from spectrocrunch.materials import types

        one_compound(case, ctx, types)
    elif k == "mixture":
        one_mixture(case, ctx)
    else:
        run_names(case, ctx)
