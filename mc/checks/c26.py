"""C26: polarization states on a grid through all conversions, against electric field vectors."""

import itertools
import math

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all fully polarized states with amplitudes 0, 1, 2.5 and 24 x 24 phases and all partially polarized states (5 degrees, 24 orientations, 9 ellipticities, 3 intensities, also integer values), all conversions in chains of up to 3 and back, 13 rotations, 12 x 9 scattering directions, 3 energies",
    "thorough": "36 x 36 phases, 36 orientations, chains of up to 4, 24 x 19 directions",
}
ASSUMPTIONS = [
    "states without intensity are not considered; orientation and handedness only where they are defined; values compared to 1e-6 (angles 1e-4 degree)",
    "the scattered state is described with the first axis perpendicular to the scattering plane",
]


def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol * max(1.0, np.abs(b).max(initial=0)))


def angle_diff(a, b, period):
    d = (a - b) % period
    return min(d, period - d)


def stokes_of(V):
    """From the electric field components"""
    a, b = V
    return np.array(
        [abs(a) ** 2 + abs(b) ** 2, abs(a) ** 2 - abs(b) ** 2, 2 * (a.conjugate() * b).real, 2 * (a.conjugate() * b).imag]
    )


def intensity_of(s0):
    return s0 / 2 * 8.8541878128e-12 * 299792458.0


def describe(obj, S, fail):
    """Derived quantities from the components of the Stokes vector"""
    S0, S1, S2, S3 = [float(x) for x in S]
    pol = math.sqrt(S1**2 + S2**2 + S3**2)
    lin = math.hypot(S1, S2)
    want = {"intensity": intensity_of(S0), "dop": pol / S0, "dolp": lin / S0, "hdolp": S1 / S0, "docp": S3 / S0}
    for k, w in want.items():
        g = getattr(obj, k)
        if not (abs(g - w) <= 1e-6 * max(1, abs(w))) or (k == "intensity" and abs(g - w) > 1e-6 * w):
            fail(k, "%s is %s instead of %s" % (k, g, w))
    if lin > 1e-3 * S0 and angle_diff(obj.polangle, math.degrees(math.atan2(S2, S1) / 2), 180) > 1e-4:
        fail("polangle", "polarization angle %s instead of %s" % (obj.polangle, math.degrees(math.atan2(S2, S1) / 2)))
    if math.hypot(S2, S3) > 1e-3 * S0 and angle_diff(obj.phase_difference, math.degrees(math.atan2(S3, S2)), 360) > 1e-4:
        fail("phase difference", "phase difference %s instead of %s" % (obj.phase_difference, math.degrees(math.atan2(S3, S2))))
    if abs(S3) > 1e-6 * S0 and obj.handedness != ("left" if S3 > 0 else "right"):
        fail("handedness", "%s" % obj.handedness)
    C = np.array([[S0 + S1, S2 - 1j * S3], [S2 + 1j * S3, S0 - S1]]) / 2
    if not close(obj.coherency_matrix, C, 1e-6):
        fail("coherency", "%s instead of %s" % (obj.coherency_matrix, C))


def steps(obj):
    """Conversions that are possible: name -> function"""
    from spectrocrunch.sources.polarization import Jones, Stokes

    if isinstance(obj, Jones):
        return {
            "stokes": lambda o: o.to_stokes(silent=True),
            "coherency": lambda o: Jones.from_coherency_matrix(o.coherency_matrix),
            "coherency stokes": lambda o: Stokes.from_coherency_matrix(o.coherency_matrix),
            "parameters": lambda o: Jones.from_params(**o.to_params()),
            "vector": lambda o: Jones(*o.to_numpy()),
            "set coherency": lambda o: _set(Jones(1, 1j), "coherency_matrix", o.coherency_matrix),
            "intensity": lambda o: _set(_set(Jones(*o.V), "intensity", 3.0), "intensity", o.intensity),
            "rotate": lambda o: o.rotate(33).rotate(-33),
        }
    out = {
        "coherency": lambda o: Stokes.from_coherency_matrix(o.coherency_matrix),
        "parameters": lambda o: Stokes.from_params(**o.to_params()),
        "vector": lambda o: Stokes(*o.to_numpy()),
        "set coherency": lambda o: _set(Stokes(1, 0, 0, 1), "coherency_matrix", o.coherency_matrix),
        "intensity": lambda o: _set(_set(Stokes(*o.S), "intensity", 3.0), "intensity", o.intensity),
        "rotate": lambda o: o.rotate(33).rotate(-33),
        "parts": lambda o: Stokes(*(o.decompose()["pol"].S + o.decompose()["unpol"].S)),
    }
    if abs(obj.dop - 1) < 1e-9:
        out["jones"] = lambda o: o.to_jones(phase0=20)
    return out


def _set(o, k, v):
    setattr(o, k, v)
    return o


def chains(obj, S, depth, fail, ctx, path=()):
    for name, f in steps(obj).items():
        if path and name == path[-1]:
            continue
        p = path + (name,)
        ctx.tick(1, "conversions")
        before = obj.to_numpy().copy()
        try:
            new = f(obj)
        except Exception as e:  # noqa
            fail("conversion raises", "%s raises %r" % (" ".join(p), e))
            continue
        got = new.S if hasattr(new, "S") else stokes_of(new.V)
        if not np.array_equal(before, obj.to_numpy()):
            fail("operand", "%s changes its operand" % (p,))
        if not close(got, S, 1e-6):
            fail("conversion", "%s gives %s instead of %s" % (" ".join(p), got, S))
            continue
        ctx.trans(1)
        if depth > 1:
            chains(new, S, depth - 1, fail, ctx, p)


def fields(S):
    """Incoherent mixture of electric fields with these Stokes parameters"""
    S0, S1, S2, S3 = [float(x) for x in S]
    pol = math.sqrt(S1**2 + S2**2 + S3**2)
    out = []
    if pol > 1e-12 * S0:
        a = math.sqrt(max(pol + S1, 0) / 2)
        b = math.sqrt(max(pol - S1, 0) / 2)
        out.append(np.array([a, b * np.exp(1j * math.atan2(S3, S2))]))
    un = S0 - pol
    if un > 1e-12 * S0:
        out += [np.array([math.sqrt(un / 2), 0]), np.array([0, math.sqrt(un / 2)])]
    return out


def scattered(V, azimuth, polar):
    """Electric field seen in a direction: component perpendicular to the
    scattering plane and component in the plane"""
    az, th = math.radians(azimuth), math.radians(polar)
    n = np.array([math.cos(az) * math.sin(th), math.sin(az) * math.sin(th), math.cos(th)])
    E = np.array([V[0], V[1], 0])
    Ep = E - n * n.dot(E)
    e0 = np.array([math.sin(az), -math.cos(az), 0.0])
    e1 = np.cross(n, e0)
    return np.array([Ep.dot(e0), Ep.dot(e1)]), float((abs(Ep) ** 2).sum())


AZ = range(0, 360, 30)
POLAR = [0, 1, 30, 60, 90, 120, 150, 179, 180]
ROT = [0, 10, 45, 90, 100, 135, 180, 200, 270, 315, 360, -45, -90]


def check_scatter(S, jones, fail, ctx, az, polar):
    from spectrocrunch.sources.polarization import Stokes, kev_to_mc2

    st = Stokes(*S)
    fs = fields(S)
    I0 = intensity_of(float(S[0]))
    for a, p in itertools.product(az, polar):
        ctx.tick(1, "directions")
        want, total = np.zeros(4), 0.0
        for V in fs:
            E, i = scattered(V, a, p)
            want += stokes_of(E)
            total += i
        got = st.thomson_scattering(a, p)
        if not close(got.S, want, 1e-6):
            fail("scattering", "azimuth %s polar %s: %s instead of %s" % (a, p, got.S, want))
        i = intensity_of(total)
        for nm, g in (("vector", got.intensity), ("formula", st.thomson_intensity(a, p))):
            if abs(g - i) > 1e-6 * I0:
                fail("scattered intensity " + nm, "azimuth %s polar %s: %s instead of %s" % (a, p, g, i))
        if jones is not None:
            j = jones.thomson_scattering(a, p)
            if not close(stokes_of(j.V), want, 1e-6):
                fail("scattering jones", "azimuth %s polar %s: %s instead of %s" % (a, p, stokes_of(j.V), want))
        # inelastic: Klein-Nishina
        for en in (5.0, 511.0, 20.0):
            k = en / 510.99895
            r = 1 / (1 + k * (1 - math.cos(math.radians(p))))
            c = (r + 1 / r - 2) / 2
            w = r**2 * (total + c * float(S[0]))
            got = st.compton_scattering(a, p, en)
            iw = intensity_of(w)
            for nm, g in (("vector", got.intensity), ("formula", st.compton_intensity(a, p, en))):
                if abs(g - iw) > 1e-5 * I0:
                    fail("inelastic intensity " + nm, "azimuth %s polar %s %s keV: %s instead of %s" % (a, p, en, g, iw))
            if not close(got.S[1:3], want[1:3] * r**2, 1e-6) or abs(got.S[3] - want[3] * (1 + c) * r**2) > 1e-5 * float(S[0]):
                fail("inelastic state", "azimuth %s polar %s %s keV: %s" % (a, p, en, got.S))
    ctx.trans(1)


def check_rotate(S, V, fail, ctx):
    from spectrocrunch.sources import polarization as P

    for ang in ROT:
        ctx.tick(1, "rotations")
        c, s = math.cos(math.radians(ang)), math.sin(math.radians(ang))
        R = np.array([[c, s], [-s, c]])
        want = sum(stokes_of(R.dot(v)) for v in fields(S))
        got = P.Stokes(*S).rotate(ang)
        if not close(got.S, want, 1e-6):
            fail("rotation", "%s degrees: %s instead of %s" % (ang, got.S, want))
        if V is not None:
            j = P.Jones(*V).rotate(ang)
            if not close(j.V, R.dot(V), 1e-9) or abs(j.intensity / P.Jones(*V).intensity - 1) > 1e-9:
                fail("rotation jones", "%s degrees: %s instead of %s" % (ang, j.V, R.dot(V)))


def check_matrices(ctx):
    """Jones matrices and their Mueller matrices"""
    from spectrocrunch.sources import polarization as P

    case = {"matrices": 1}
    ctx.current = case
    mats = [(P.JonesMatrixRotation(a), P.MuellerMatrixRotation(a), "rotation %s" % a) for a in ROT]
    mats += [(P.JonesMatrixThomson(p), P.MuellerMatrixThomson(90, p), "scattering %s" % p) for p in POLAR]
    for a in (0, 1, 1j, 0.5 - 2j):
        for b, c, d in itertools.product((0, 1, 2j), repeat=3):
            mats.append((np.array([[a, b], [c, d]], dtype=complex), None, "matrix"))
    states = [(1, 0), (0, 1), (1, 1), (1, 1j), (2, -1j), (0.3 + 1j, 2 - 0.5j)]
    for M, W, name in mats:
        ctx.tick(1, "matrices")
        got = P.Stokes.jones_to_mueller(M)
        for V in states:
            V = np.array(V, dtype=complex)
            if not close(got.dot(stokes_of(V)), stokes_of(M.dot(V)), 1e-9):
                ctx.fail("mueller", case, "%s %s: %s" % (name, M.tolist(), got))
                break
            if W is not None and not close(W.dot(stokes_of(V)), stokes_of(M.dot(V)), 1e-9):
                ctx.fail("mueller formula", case, "%s" % name)
                break
        ctx.trans(1)
    for a, p in itertools.product(AZ, POLAR):
        R = P.MuellerMatrixRotation(-P.ThomsonRotationAngle(a))
        T = P.Stokes.jones_to_mueller(P.JonesMatrixThomson(p)).dot(R)
        if not close(P.MuellerMatrixThomson(a, p), T.real, 1e-9):
            ctx.fail("scattering matrix", case, "azimuth %s polar %s" % (a, p))
        # elastic limit
        if not close(P.MuellerMatrixCompton(a, p, 1e-9), T.real, 1e-6):
            ctx.fail("inelastic matrix", case, "azimuth %s polar %s" % (a, p))
    for x in (0.0, 1e-3, 1.0, 2.5e7):
        if not close(P.jonesnormsq_to_intensity(x), intensity_of(x)) or not close(P.intensity_to_jonesnormsq(P.jonesnormsq_to_intensity(x)), x):
            ctx.fail("intensity", case, "%s" % x)


def jones_states(n):
    for a, b in itertools.product((0, 1, 2.5), repeat=2):
        if not a and not b:
            continue
        for i, j in itertools.product(range(n) if a else (0,), range(n) if b else (0,)):
            yield a, b, i * 360.0 / n, j * 360.0 / n


def stokes_states(n):
    for dop in (0, 0.25, 0.5, 0.999, 1):
        for ori in range(n) if dop else (0,):
            for ell in (-90, -60, -45, -1, 0, 1, 30, 45, 90) if dop else (0,):
                if abs(ell) == 90 and ori:
                    continue
                for s0 in (1.0, 3.0, 2e-3):
                    yield dop, ori * 360.0 / n, ell, s0


INTS = [(1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, -1), (5, 3, -4, 0), (5, 0, 0, 0), (2, 1, 0, -1), (7, 2, 3, 6), (3, -1, 0, 0)]


def check_jones(a, b, pa, pb, depth, ctx, scatter=True):
    from spectrocrunch.sources.polarization import Jones

    case = {"jones": [a, b, pa, pb, depth]}
    ctx.current = case
    V = np.array([a * np.exp(1j * math.radians(pa)), b * np.exp(1j * math.radians(pb))])
    S = stokes_of(V)

    def fail(sig, msg):
        ctx.fail(sig, case, "Jones %s: %s" % (V, msg))

    try:
        j = Jones(*V)
        describe(j, S, fail)
        if abs(j.norm**2 - S[0]) > 1e-9 * S[0] or abs(j.sqnorm - S[0]) > 1e-9 * S[0]:
            fail("norm", "%s" % j.norm)
        if a and angle_diff(j.phase0, pa, 360) > 1e-6 or b and angle_diff(j.phase1, pb, 360) > 1e-6:
            fail("phases", "%s %s" % (j.phase0, j.phase1))
        E = j.efield(np.array([0, 90]))
        if not close(E, np.array([V, V * -1j]).real.T):
            fail("field", "%s" % E)
        if not (j == Jones(*V)) or j != Jones(*V) or j == Jones(*(V * 2)) or not (j != Jones(*(V * 2))) or j == None:  # noqa
            fail("equal", "comparison")
        # the phase can be kept
        k = j.to_stokes(silent=True).to_jones(phase0=j.phase0 if a else 0)
        if a and not close(k.V, V, 1e-6):
            fail("phase", "%s" % k.V)
        p = Jones.from_params(**j.to_params())
        if a and not close(p.V, V, 1e-6):
            fail("parameters", "%s gives %s" % (j.to_params(), p.V))
        chains(j, S, depth, fail, ctx)
        if pa in (0, 45, 120) or not a:
            check_rotate(S, V, fail, ctx)
            if scatter:
                check_scatter(S, j, fail, ctx, AZ if not ctx.thorough else range(0, 360, 15), POLAR)
        if not close(j.V, V):
            fail("operand", "changed")
    except Exception as e:  # noqa
        import traceback

        fail("raises %s" % type(e).__name__, "raises %r %s" % (e, traceback.format_exc(limit=-2)))
    ctx.state((a, b, pa, pb))
    ctx.trace(1)


def check_stokes(S, depth, ctx, scatter=True):
    from spectrocrunch.sources.polarization import Stokes

    case = {"stokes": [list(S), depth]}
    ctx.current = case

    def fail(sig, msg):
        ctx.fail(sig, case, "Stokes %s: %s" % (list(S), msg))

    try:
        s = Stokes(*S)
        describe(s, S, fail)
        d = s.decompose()
        pol, un = d["pol"], d["unpol"]
        if not close(pol.S + un.S, S) or abs(pol.intensity + un.intensity - s.intensity) > 1e-9 * s.intensity:
            fail("parts", "%s and %s" % (pol.S, un.S))
        if abs(un.dop) > 1e-7 and un.S[0] > 0:
            fail("parts", "unpolarized part %s" % un.S)
        if pol.S[0] > 1e-9 and abs(pol.dop - 1) > 1e-6:
            fail("parts", "polarized part %s" % pol.S)
        if abs(s.intensity_polarized - pol.intensity) > 1e-9 * s.intensity or abs(s.intensity_unpolarized - un.intensity) > 1e-9 * s.intensity:
            fail("parts", "intensities")
        if abs(s.dop - 1) > 1e-6:
            try:
                s.to_jones()
                fail("unpolarized part lost", "no error")
            except RuntimeError:
                pass
            if pol.S[0] > 0:
                j = s.to_jones(allowloss=True)
                if not close(stokes_of(j.V), pol.S, 1e-6):
                    fail("polarized part", "%s" % j.V)
        if not (s == Stokes(*S)) or s != Stokes(*S) or s == Stokes(*(np.array(S) * 2)) or s == 1:
            fail("equal", "comparison")
        t = Stokes(*S)
        t.intensity = 5.0
        if abs(t.intensity - 5) > 1e-9 or abs(t.dop - s.dop) > 1e-9 or not close(t.S / t.S[0], np.array(S) / S[0]):
            fail("set intensity", "%s" % t.S)
        chains(s, np.array(S, dtype=float), depth, fail, ctx)
        check_rotate(S, None, fail, ctx)
        if scatter:
            check_scatter(S, None, fail, ctx, AZ if not ctx.thorough else range(0, 360, 15), POLAR)
        if not close(s.S, S):
            fail("operand", "changed")
    except Exception as e:  # noqa
        import traceback

        fail("raises %s" % type(e).__name__, "raises %r %s" % (e, traceback.format_exc(limit=-2)))
    ctx.state(tuple(S))
    ctx.trace(1)


NP = 24


def worker_init():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import spectrocrunch.sources.polarization  # noqa


def shards(tier):
    return [{"what": w, "part": p} for p in range(NP) for w in ("jones", "stokes")] + [{"what": "matrices", "part": 0}]


def run_shard(shard, ctx):
    t = ctx.thorough
    n = 36 if t else 24
    if shard["what"] == "matrices":
        check_matrices(ctx)
    elif shard["what"] == "jones":
        for i, x in enumerate(jones_states(n)):
            if i % NP == shard["part"]:
                # conversions are the same for all scales: deep chains for some
                deep = x[2] in (0, 45, 120) or t
                check_jones(*x, (4 if t else 3) if deep and x[3] % 45 == 0 else 2 if deep else 1, ctx, x[2] in (0, 45))
    else:
        for i, (dop, ori, ell, s0) in enumerate(stokes_states(n)):
            if i % NP == shard["part"]:
                p = dop * s0
                o, e = math.radians(ori), math.radians(ell)
                S = (s0, p * math.cos(e) * math.cos(o), p * math.cos(e) * math.sin(o), p * math.sin(e))
                check_stokes(S, 3 if (ori % 90 == 0 and s0 == 3) or t else 1, ctx, s0 == 3 and (ori % 45 == 0 or t))
        for i, S in enumerate(INTS):
            if i % NP == shard["part"]:
                check_stokes(S, 3, ctx)
    ctx.sample(shard)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if "jones" in case:
        check_jones(*case["jones"], ctx)
    elif "stokes" in case:
        check_stokes(tuple(case["stokes"][0]), case["stokes"][1], ctx)
    else:
        check_matrices(ctx)
