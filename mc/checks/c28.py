"""C28: values with units and serialized objects."""

import copy
import itertools
import math
import warnings

import numpy as np

from mc.checks import tasklib

LEVEL = "model_checking"
BOUNDS = {
    "quick": "27 classes in all combinations of their options (2 to 5 values per option; for compounds, mixtures and whole geometries those with at most 2 or 3 options set): saved and restored (once, twice, inside a list, through the state), copied, and modified afterwards on either side (12 modifications), comparing all public attributes and the results of their methods; all unit helpers on 19 numbers and containers x 16 units x 16 target units and 8 lists of quantities, against an own table of factors",
    "thorough": "all combinations of the options of every class",
}
ASSUMPTIONS = [
    "the public attributes and listed methods are the behaviour of an object",
    "objects refer to materials by value; what a detector, geometry or layer belongs to is restored with the object which holds it",
    "zero-dimensional arrays may come back as arrays with one element",
    "optical materials of lenses and scintillators which need PyTMM are not covered (it is not installed)",
    "copies are deep copies (copy.deepcopy); copy.copy is independent in its own settings only",
]


def worker_init():
    tasklib.quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


# ---------------------------------------------------------------- observation
SKIP = {"clsregistry", "aliases", "aliasregistry", "fluolines", "geometry", "parent", "registry", "detector", "TYPES"}


def tree(x, depth=0, path=()):
    """Everything observable of an object, as nested tuples"""
    from uncertainties.core import AffineScalarFunc

    if x is None or isinstance(x, (bool, str, bytes, np.bool_)):
        return x
    if isinstance(x, (int, float, complex, np.number)):
        return ("num", str(x))
    if isinstance(x, AffineScalarFunc):
        return ("random", str(x.nominal_value), str(x.std_dev))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, tuple(tree(e) for e in x.ravel().tolist()))
    if hasattr(x, "magnitude") and hasattr(x, "units"):
        return ("quantity", str(x.units), tree(x.magnitude))
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((repr(tree(k, depth + 1, path)), tree(v, depth + 1, path)) for k, v in x.items()), key=lambda kv: kv[0])))
    if isinstance(x, (list, tuple)):
        return ("list", tuple(tree(e, depth + 1, path) for e in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(tree(e, depth + 1, path)) for e in x)))
    if isinstance(x, type):
        return ("class", x.__name__)
    if callable(x) and not type(x).__module__.startswith("spectrocrunch"):
        return ("callable",)
    if type(x).__module__.startswith("spectrocrunch"):
        if id(x) in path or depth > 6:
            return ("again", type(x).__name__)
        out = []
        for k in sorted(set(k for c in type(x).__mro__ for k in vars(c)) | set(vars(x))):
            if k.startswith("_") or k in SKIP or k.isupper():
                continue
            try:
                v = getattr(x, k)
            except Exception as e:
                out.append((k, "raises " + type(e).__name__))
                continue
            if callable(v) and not type(v).__module__.startswith("spectrocrunch"):
                continue
            out.append((k, tree(v, depth + 1, path + (id(x),))))
        return (type(x).__name__, tuple(out))
    return (type(x).__name__, str(x))


def diff(a, b, at="", tol=False):
    """First difference"""
    if a == b:
        return None
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        if len(a) == 2 and a[0] == b[0] == "num":
            if float(complex(a[1]).real) == float(complex(b[1]).real) or a[1] == b[1] == "nan":
                return None
        if len(a) == 2 and isinstance(a[0], str) and a[0] == b[0] and isinstance(a[1], tuple) and isinstance(b[1], tuple) and len(a[1]) != len(b[1]):
            ka, kb = ({k[0]: k[1] for k in t if isinstance(k, tuple) and len(k) == 2} for t in (a[1], b[1]))
            if len(ka) == len(a[1]) and len(kb) == len(b[1]):
                only = sorted(set(ka) ^ set(kb))
                return "%s.%s: %s" % (at, a[0], ", ".join("%s %s" % (k, "missing" if k in ka else "too many") for k in only))
        if len(a) == 2 and isinstance(a[0], str) and a[0] == b[0]:
            return diff(a[1], b[1], at + "." + a[0])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, at + "/%d" % i)
            if d:
                return d
        return None
    return "%s: %s instead of %s" % (at, str(b)[:160], str(a)[:160])


def calls(o, fs):
    out = []
    for name, f in fs:
        try:
            out.append((name, tree(f(o))))
        except Exception as e:
            out.append((name, "raises " + type(e).__name__))
    return tuple(out)


# ---------------------------------------------------------------- the classes
E1 = np.array([5.0, 7.3])


def q(x, u):
    from spectrocrunch.patch.pint import ureg

    return ureg.Quantity(x, u)


def material(k):
    from spectrocrunch.materials import element, compoundfromformula, mixture, types, compoundfromname

    if k == "element":
        return element.Element("Fe")
    if k == "compound":
        return compoundfromformula.CompoundFromFormula("Fe2O3", 5.3, name="rust")
    if k == "water":
        return compoundfromformula.CompoundFromFormula("H2O", 1.0, name="water")
    if k == "air":
        return compoundfromname.compoundfromname("air")
    if k == "mixture":
        return mixture.Mixture([material("compound"), material("water")], [0.25, 0.75], types.fraction.mass, name="mud")


MARKS = [None, ("all",), ("K",), ("lines",), ("energy",)]


def mark(o, m, scatter, el=False):
    if m is not None:
        pre = () if el else ("Fe",)
        kind = m[0]
        if kind == "all":
            o.markabsorber(*pre)
        elif kind == "K":
            o.markabsorber(*pre, shells="K")
        elif kind == "lines":
            o.markabsorber(*pre, shells=["K", "L3"], fluolines=["KL3", "KM3", "L3M5"])
        else:
            o.markabsorber(*pre, energybounds=[5.0, 8.0])
    if not scatter:
        o.unmarkscatterer()
    return o


MATERIAL_CALLS = [(m, (lambda m: lambda o: getattr(o, m)(E1))(m)) for m in ("mass_att_coeff", "mass_abs_coeff", "scattering_cross_section", "compton_cross_section", "rayleigh_cross_section")]
MATERIAL_CALLS += [("fluorescence", lambda o: {str(k): v for k, v in o.fluorescence_cross_section(E1, decomposed=False).items()} if isinstance(o.fluorescence_cross_section(E1), dict) else o.fluorescence_cross_section(E1)), ("mark", lambda o: sorted("".join(sorted(str(s).replace(",", " "))) for s in o.markinfo()))]


def _element(symb, m, scatter):
    from spectrocrunch.materials import element

    o = element.Element(symb)
    if m is not None:
        mark(o, m, True, el=True)
    o.isscatterer = scatter
    return o


def _compound(name, density, nrefrac, m, scatter):
    from spectrocrunch.materials import compoundfromformula, compoundfromlist, types

    if name == "list":
        o = compoundfromlist.CompoundFromList(["Fe", "C", "O"], [0.5, 0.25, 0.25], types.fraction.mass, density, name="list")
        o.nrefrac = float(nrefrac)
    else:
        o = compoundfromformula.CompoundFromFormula(name, density, name="it")
        o.nrefrac = float(nrefrac)
    return mark(o, m if name != "H2O" else None, scatter)


def _mixture(ft, m, scatter, nested):
    from spectrocrunch.materials import mixture, types

    c = [material("compound"), material("water")] + ([material("element")] if nested else [])
    o = mixture.Mixture(c, [0.25, 0.5, 0.75][: len(c)], getattr(types.fraction, ft), name="mix")
    return mark(o, m, scatter)


def _named(name):
    from spectrocrunch.materials import compoundfromname

    return compoundfromname.compoundfromname(name)


def _shell(name, lines):
    from spectrocrunch.materials import xrayspectrum

    return xrayspectrum.Shell(name, fluolines=lines)


def _line(k):
    from spectrocrunch.materials import xrayspectrum as x, element

    fe = element.Element("Fe")
    if k == "fluo":
        return x.FluoLine("KL3")
    if k == "group":
        return x.FluoZGroup(fe, "K")
    if k == "zline":
        return x.FluoZLine(fe, x.FluoLine("KL3"))
    if k == "rayleigh":
        return x.RayleighLine(7.2)
    if k == "compton":
        return x.ComptonLine(7.2)
    return x.Line(6.4)


def _geometry(k, pos=None, unit=None, source=True):
    from spectrocrunch.geometries import xrf as g
    from spectrocrunch.detectors import xrf as d
    from spectrocrunch.sources import xray as s

    kw = {}
    if pos is not None:
        kw["detectorposition"] = pos
    if unit == "angles":
        kw["anglein"], kw["angleout"] = 50, 40
    if unit == "zero":
        kw["zerodistance"] = 61.5
    if unit == "azimuth":
        kw["sample_azimuth"], kw["detector_azimuth"] = 90, 45
    return g.factory(k, detector=d.factory("leia"), source=s.factory("synchrotron") if source else None, **kw)


GEOM_CALLS = [
    ("solidangle", lambda o: o.solidangle),
    ("distance", lambda o: o.distance),
    ("position", lambda o: o.detectorposition),
    ("moved", lambda o: (setattr(o, "detectorposition", q(3.0, "mm")), o.distance, o.solidangle)[1:]),
    ("zero", lambda o: (setattr(o, "zerodistance", q(70.0, "mm")), o.distance)[1:]),
    ("spectrum", lambda o: o.xrayspectrumkwargs()),
]


def _multilayer(mats, thick, fixed, geom, name):
    from spectrocrunch.materials import multilayer

    return multilayer.Multilayer(material=[material(m) for m in mats], thickness=[thick * (i + 1) for i in range(len(mats))], fixed=fixed, geometry=_geometry("sxm120") if geom else None, name=name)


LAYER_CALLS = [
    ("arealdensity", lambda o: {str(k): v for k, v in o.arealdensity().items()}),
    ("massfractions", lambda o: {str(k): v for k, v in o.elemental_massfractions().items()}),
    ("mix", lambda o: o.mixlayers().density),
    ("thickness in", lambda o: [layer.xraythicknessin for layer in o]),
    ("thickness out", lambda o: [layer.xraythicknessout for layer in o]),
    ("set thickness in", lambda o: (setattr(o[0], "xraythicknessin", 0.25), o[0].thickness)[1:]),
    ("fixed", lambda o: [layer.fixed for layer in o]),
    ("name", lambda o: o.name),
]


def _lut(kind, default, x, u):
    from spectrocrunch.utils import lut

    kw = {"kind": kind} if kind else {}
    if default is not None:
        kw["default"] = q(default, "1/cm") if u and not x else default
    if x:
        kw["x"] = q([3.0, 1.0, 2.0][:x], "keV" if u else "dimensionless")
        kw["y"] = q([0.5, 0.25, 4.0][:x], "mm" if u else "dimensionless")
    return lut.LUT(**kw)


LUT_CALLS = [("call %s" % (x,), (lambda x: lambda o: o(q(x, str(o.xunits))))(x)) for x in (0.5, 1.0, 1.5, 2.75, 9.0)] + [
    ("items", lambda o: list(o)),
    ("empty", lambda o: o.isempty()),
    ("add", lambda o: (o.add(q([1.5], str(o.xunits)), q([2.0], str(o.yunits))), list(o), o(q(1.25, str(o.xunits))))[1:]),
]


def _optics(k, lut):
    from spectrocrunch.optics import xray

    if k == "Filter":
        o = xray.factory("Filter", material=material("water"), thickness=0.2)
    else:
        o = xray.factory(k, uselut=lut != "none") if lut == "none" else xray.factory(k)
    if lut == "set":
        o.set_transmission([7, 7.5], [0.9, 0.85])
    elif lut == "one":
        o.set_transmission(7, 0.5)
    return o


OPTICS_CALLS = [("transmission", lambda o: o.transmission(E1)), ("one", lambda o: o.transmission(7.2)), ("reset", lambda o: (o.reset_transmission(), o.transmission(7.2))[1:])]


def _source(k, **kw):
    from spectrocrunch.sources import xray

    return xray.factory(k, **{a: b for a, b in kw.items() if b is not None})


SOURCE_CALLS = [("thomson", lambda o: o.thomson_K(0.3, 0.5)), ("compton", lambda o: o.compton_K(7.0)(0.3, 0.5)), ("stokes", lambda o: o.stokes.to_params())]


def _polarization(k, **kw):
    from spectrocrunch.sources import polarization as p

    if k == "jones":
        return p.Jones(*kw["v"])
    return p.Stokes(*kw["v"])


POL_CALLS = [("params", lambda o: o.to_params()), ("numpy", lambda o: o.to_numpy()), ("intensity", lambda o: o.intensity)]


def _emspectrum(lines, u, ints):
    from spectrocrunch.sources import emspectrum

    if not lines:
        return emspectrum.Dark()
    return emspectrum.Discrete(q([7.0, 3.0, 5.0][:lines], u), [1.0, 2.0, 0.5][:lines] if ints else [1] * lines)


EM_CALLS = [("energies", lambda o: o.energies), ("ratios", lambda o: o.ratios), ("total", lambda o: o.total), ("n", lambda o: o.nlines), ("sample", lambda o: o.sample(_lut("linear", None, 3, True)))]


def _scintillator(k, t):
    from spectrocrunch.materials import scintillators

    return scintillators.factory(k, thickness=t)


SCINT_CALLS = [("attenuation", lambda o: o.attenuation(E1)), ("transmission", lambda o: o.transmission(E1)), ("nrefrac", lambda o: o.get_nrefrac())]


def _base_detector(cls, att, ehole, escape, pulse, area):
    from spectrocrunch.detectors import base

    att = {} if not att else {"Detector": {"material": material("element"), "thickness": 0.01}, "BeamFilter0": {"material": material("mixture"), "thickness": 0.02}, "Filter": {"material": material("water"), "thickness": 0.03}}
    kw = {"attenuators": att}
    if cls != "Material":
        kw.update(ehole=ehole, escape=escape, pulse_processing_time=pulse)
    if cls == "CentricCone":
        kw["activearea"] = area
    return getattr(base, cls)(**kw)


DET_CALLS = [
    ("efficiency", lambda o: o.efficiency(E1, E1)),
    ("absorbance", lambda o: o.absorbance(E1)),
    ("pileup", lambda o: o.pileup),
    ("escape", lambda o: o.escape),
    ("add", lambda o: (o.addattenuator("BeamFilter7", material("compound"), 0.1), sorted(o.attenuators), o.efficiency(E1, E1))[1:]),
    ("remove", lambda o: (o.removebeamfilters(), sorted(o.attenuators))[1:]),
]


def _xrfdetector(k, shape, conv, area):
    from spectrocrunch.detectors import xrf

    kw = {}
    if shape == "area":
        kw["shape_fixedarearatios"] = {"stailbroadening": 0.5, "ltailbroadening": 10.0, "stailfraction": 0.05, "ltailfraction": 0.02, "stepfraction": 0.005, "bpeak": True, "bstail": True, "bltail": False, "bstep": True}
    elif shape == "pymca":
        kw["shape_pymca"] = {"stailarea_ratio": 0.07, "stailslope_ratio": 0.3, "ltailarea_ratio": 0.02, "ltailslope_ratio": 9.0, "stepheight_ratio": 0.001, "bpeak": False, "bstail": True, "bltail": True, "bstep": True}
    if conv:
        kw["shape_conversionenergy"] = conv
    if k == "none":
        o = xrf.XRFDetector(mcazero=0.02, mcagain=0.005, mcanoise=0.1, mcafano=0.11, activearea=area, ehole=3.6, **kw)
    else:
        o = xrf.factory(k, **kw)
    return o


XRFDET_CALLS = DET_CALLS[:4] + [
    ("lineprofile", lambda o: o.lineprofile(np.linspace(4.5, 5.5, 7), np.array([5.0, 5.2]))),
    ("sigma", lambda o: o.gaussianVAR(5.0)),
    ("limits", lambda o: o.escape),
    ("convert", lambda o: (o.convert(inplace=True), o.lineprofile(np.linspace(4.5, 5.5, 7), np.array([5.0])))[1:]),
]


def _area(k, geom):
    from spectrocrunch.detectors import area
    from spectrocrunch.geometries import flatarea

    return area.factory(k, geometry=flatarea.factory("perpendicular") if geom else None)


AREA_CALLS = [("propagate", lambda o: [o.propagate(1e5, s, tframe=0.1, nframe=2) for s in (_emspectrum(2, "nm", True), _emspectrum(0, "nm", True))])]


def _diode(k, npop=None, **kw):
    from spectrocrunch.detectors import diode

    if npop is not None:
        kw["npop"] = npop
    o = diode.factory(k, **{a: b for a, b in kw.items() if b is not None})
    return o


def _setdiode(k, gain, dark, simple, optics):
    from spectrocrunch.detectors import diode

    o = diode.factory(k, simplecalibration=simple)
    if gain:
        o.gain = q(gain, "volt/ampere") if not o.gain.check("[current]") else q(gain * 1e-12, "ampere")
    if dark:
        o.darkcurrent = q(dark, "ampere")
    if optics:
        o.optics = _optics("KB", "set")
    return o


DIODE_CALLS = [
    ("flux", lambda o: o.cpstoflux(7.2, q(1e5, "hertz"))),
    ("cps", lambda o: o.fluxtocps(7.2, q(1e9, "hertz"))),
    ("current", lambda o: o.cpstocurrent(q(1e5, "hertz"))),
    ("response", lambda o: o.spectral_responsivity(E1)),
    ("gain", lambda o: o.gain),
    ("absorbance", lambda o: o.absorbance(E1)),
    ("round", lambda o: (setattr(o, "gain", q(3.4e6, "volt/ampere")), o.gain)[1:]),
]


def _small(k, a, b, c):
    from spectrocrunch.detectors import diode

    if k == "gain":
        return diode.GainRounder(m=a, base=b)
    return diode.Oscillator(Fmax=q(a, "Hz"), F0=q(b, "Hz"), Vmax=q(c, "volt"))


SMALL_CALLS = [("round", lambda o: o(q(3.4e6, "volt/ampere"))), ("op", lambda o: o.op_voltagetocps()(q(2.0, "volt"))), ("inverse", lambda o: o.op_cpstovoltage()(q(2e4, "Hz")))]


def _plain_geometry(cls, kw):
    from spectrocrunch.geometries import base

    kw = dict(kw)
    if "atmosphere" in kw:
        kw["atmosphere"] = material(kw["atmosphere"])
    if "detector" in kw:
        kw["detector"] = _base_detector("CentricCone", True, 3.6, True, 1e-6, 0.8)
    if "source" in kw:
        kw["source"] = _source("synchrotron")
    return getattr(base, cls)(**kw)


PLAIN_CALLS = [(k, (lambda k: lambda o: getattr(o, k))(k)) for k in ("solidangle", "distance", "reflection", "anglenormin", "anglenormout", "cosnormin", "cosnormout", "scatteringangle", "azimuth", "ehole", "pileup")]


def _diodegeometry(k, kw):
    from spectrocrunch.geometries import diode

    return diode.factory(k, **kw)


def _qxrf(k, det, exp, ref, I0, simple, fid):
    from spectrocrunch.geometries import qxrf

    kw = {"simplecalibration": simple}
    if det:
        kw["xrfgeometries"] = [({"name": "sxm120", "parameters": {"detectorposition": p}}, {"name": "leia", "parameters": {}}) for p in det]
    if exp:
        kw["defaultexpotime"] = q(exp, "s")
    if ref:
        kw["reference"] = q(*ref)
        kw["defaultreferencetime"] = q(0.5, "s")
    if fid:
        kw["fluxid"], kw["transmissionid"] = fid
    return qxrf.factory(k, **kw)


def op(x):
    """Operators by what they do"""
    if isinstance(x, tuple):
        return [op(y) for y in x]
    if callable(x):
        return x(10.0)
    return x


QXRF_CALLS = [
    ("flux", lambda o: o.fluxtocps(7.2, q(1e9, "hertz"))),
    ("back", lambda o: o.responsetoflux(7.2, q(1e5, "hertz"))),
    ("I0", lambda o: op(o.I0op(7.2, expotime=q(0.2, "s")))),
    ("It", lambda o: op(o.Itop(7.2, expotime=q(0.2, "s")))),
    ("norm", lambda o: op(o.xrfnormop(7.2, expotime=q(0.2, "s")))),
    ("solid", lambda o: [g.solidangle for g in o.xrfgeometries]),
    ("distance", lambda o: (setattr(o.xrfgeometries[0], "detectorposition", q(2.0, "mm")), [g.distance for g in o.xrfgeometries])[1:]),
    ("set reference", lambda o: (setattr(o, "reference", q(1e8, "hertz")), o.reference, op(o.xrfnormop(7.2, expotime=q(0.2, "s"))))[1:]),
]


def prod(**kw):
    names = list(kw)
    for vals in itertools.product(*kw.values()):
        yield dict(zip(names, vals))


def _motor(z, s):
    from spectrocrunch.geometries import xrf

    return xrf.LinearMotor(zerodistance=z, positionsign=s)


MOTOR_CALLS = [("to distance", lambda o: o(detectorposition=q(3.0, "mm"))), ("to position", lambda o: o(distance=q(5.0, "cm")))]

def near(n, **kw):
    """All combinations in which at most n options are not the first"""
    names = list(kw)
    for vals in itertools.product(*[range(len(v)) for v in kw.values()]):
        if sum(1 for i in vals if i) <= n:
            yield {k: kw[k][i] for k, i in zip(names, vals)}


def table(thorough=False):
    def both(n, **kw):
        return prod(**kw) if thorough else near(n, **kw)

    """class name: (builder, configurations, calls)"""
    from spectrocrunch.optics import xray as xo
    from spectrocrunch.detectors import diode, xrf as xd, area
    from spectrocrunch.materials import scintillators
    from spectrocrunch.geometries import diode as gd, xrf as gx, qxrf

    diodes = sorted(k for k in diode.PNdiode.clsregistry if k not in ("PNdiode", "CalibratedPNdiode", "NonCalibratedPNdiode"))
    return {
        "element": (_element, prod(symb=["Fe", "Pb", "H"], m=MARKS, scatter=[True, False]), MATERIAL_CALLS),
        "compound": (_compound, both(3, name=["Fe2O3", "H2O", "list"], density=[1.0, 5.5, None], nrefrac=[1, 1.8], m=MARKS, scatter=[True, False]), MATERIAL_CALLS),
        "mixture": (_mixture, both(2, ft=["mole", "mass", "volume"], m=MARKS, scatter=[True, False], nested=[False, True]), MATERIAL_CALLS),
        "named": (_named, prod(name=["air", "calcite", "hematite", "goethite", "ultralene", "silicon nitride", "vacuum"]), MATERIAL_CALLS),
        "shell": (_shell, prod(name=["K", "L3", "M1"], lines=[None, [], ["KL3"], ["KL3", "KM3"]]), [("lines", lambda o: [str(line) for line in o.fluolines]), ("edge", lambda o: o.edgeenergy(26)), ("yield", lambda o: o.fluoyield(26)), ("rate", lambda o: o.radrate(26))]),
        "line": (_line, prod(k=["fluo", "group", "zline", "rayleigh", "compton", "line"]), [("energy", lambda o: o.energy(polar=0.5, azimuth=0.1)), ("one", lambda o: o.energy(26)), ("group", lambda o: o.groupname)]),
        "multilayer": (_multilayer, prod(mats=[("water",), ("compound", "water"), ("element", "mixture", "compound")], thick=[1e-4, 0.02], fixed=[False, True], geom=[False, True], name=[None, "ml"]), LAYER_CALLS),
        "lut": (_lut, prod(kind=[None, "linear", "zero", "nearest"], default=[None, 0, 2.5], x=[0, 1, 2, 3], u=[False, True]), LUT_CALLS),
        "optics": (_optics, [dict(k=k, lut=x) for k in sorted(xo.XrayOptics.clsregistry) if k != "XrayOptics" for x in (("default",) if k == "Filter" else ("default", "none", "set", "one"))], OPTICS_CALLS),
        "synchrotron": (_source, prod(k=["synchrotron"], intensity=[None, 3.0], dop=[None, 0.5], dolp=[None, 0.25], polangle=[None, 30], handedness=[None, "left", "right"]), SOURCE_CALLS),
        "tube": (_source, prod(k=["tube"], intensity=[None, 2.0]), SOURCE_CALLS),
        "jones": (_polarization, prod(k=["jones"], v=[(1, 0), (0, 1j), (0.5 + 0.5j, 0.25), (1, -1j)]), POL_CALLS),
        "stokes": (_polarization, prod(k=["stokes"], v=[(1, 0, 0, 0), (1, 0.5, 0, 0.25), (2, 0, -1, 0)]), POL_CALLS),
        "emspectrum": (_emspectrum, prod(lines=[0, 1, 2, 3], u=["keV", "nm"], ints=[True, False]), EM_CALLS),
        "scintillator": (_scintillator, prod(k=sorted(k for k in scintillators.Scintillator.clsregistry if k != "Scintillator"), t=[5, 20]), SCINT_CALLS),
        "material": (_base_detector, prod(cls=["Material", "SolidState", "CentricCone"], att=[False, True], ehole=[None, 3.6], escape=[False, True], pulse=[0, 1e-6], area=[0.8]), DET_CALLS),
        "xrfdetector": (_xrfdetector, prod(k=sorted(k for k in xd.XRFDetector.clsregistry if k != "XRFDetector") + ["none"], shape=[None, "area", "pymca"], conv=[None, 5.2], area=[0.8]), XRFDET_CALLS),
        "area": (_area, prod(k=sorted(k for k in area.AreaDetector.clsregistry if k != "AreaDetector"), geom=[False, True]), AREA_CALLS),
        "small": (_small, list(prod(k=["gain"], a=[None, 2.1], b=[None, 10], c=[0])) + list(prod(k=["vtof"], a=[1e6, 5e5], b=[0.0, 30.0], c=[10.0, 2.0])), SMALL_CALLS),
        "diode": (_setdiode, prod(k=diodes, gain=[None, 1e6], dark=[None, 1e-12], simple=[False, True], optics=[False, True]), DIODE_CALLS),
        "geometry": (
            _plain_geometry,
            [dict(cls="Base", kw=kw) for kw in ({}, {"atmosphere": "water"}, {"source": 1}, {"detector": 1})]
            + [dict(cls=c, kw=dict(kw, **kw2)) for c in ("FlatSample", "SolidAngle", "Centric") for kw in ({"anglein": 62, "angleout": 28}, {"anglein": 90, "angleout": -80, "sample_azimuth": 90.0}, {"anglein": 40, "angleout": 50, "detector_azimuth": 30.0}) for kw2 in ({}, {"atmosphere": "mixture"}, {"source": 1}, {"detector": 1})]
            + [dict(cls="SolidAngle", kw={"anglein": 62, "angleout": 28, "solidangle": 0.8}), dict(cls="Centric", kw={"anglein": 62, "angleout": 28, "distance": 4.0, "detector": 1})],
            PLAIN_CALLS,
        ),
        "diodegeometry": (_diodegeometry, prod(k=sorted(k for k in gd.DiodeGeometry.clsregistry if k != "DiodeGeometry"), kw=[{}, {"solidangle": 1.5}]), PLAIN_CALLS),
        "xrfgeometry": (_geometry, prod(k=sorted(k for k in gx.XRFGeometry.clsregistry if k not in ("XRFGeometry", "LinearXRFGeometry")), pos=[None, 5.0], unit=[None, "angles", "zero", "azimuth"], source=[True, False]), GEOM_CALLS),
        "motor": (_motor, prod(z=[None, 5.5], s=[1, -1]), MOTOR_CALLS),
        "qxrf": (_qxrf, both(2, k=sorted(k for k in qxrf.QXRFGeometry.clsregistry if k != "QXRFGeometry"), det=[None, (0,), (0, 4.0)], exp=[None, 0.25], ref=[None, (1e9, "hertz"), (1e5, "dimensionless")], I0=[0], simple=[True, False], fid=[None, ("A", "B")]), QXRF_CALLS),
    }


# ---------------------------------------------------------------- modifications
def _mut(o):
    """Modifications which apply to this object: name -> function"""
    out = {}

    def add(name, f):
        out[name] = f

    n = type(o).__name__
    if hasattr(o, "unmarkscatterer") and hasattr(o, "elements"):
        add("absorber", lambda o: o.markabsorber("Fe", shells="L3"))
        add("scatterer", lambda o: o.unmarkscatterer())
    if n == "Element":
        out.clear()
        add("absorber", lambda o: o.markabsorber(shells="L3"))
        add("scatterer", lambda o: setattr(o, "isscatterer", not o.isscatterer))
    if hasattr(o, "addelements"):
        add("elements", lambda o: o.addelements("U", 0.5, _types().fraction.mass))
    if hasattr(o, "addcompounds"):
        add("compounds", lambda o: o.addcompounds(material("element"), 0.5, _types().fraction.mass))
    if n == "Multilayer":
        add("thickness", lambda o: setattr(o[0], "thickness", 7.0))
        add("fixed", lambda o: setattr(o[0], "fixed", not o[0].fixed))
        add("layer mark", lambda o: o.markabsorber("Fe", shells="L3"))
    if hasattr(o, "add") and hasattr(o, "isempty"):
        add("add", lambda o: o.add(q([1.5], str(o.xunits)), q([2.0], str(o.yunits))))
        add("replace", lambda o: o.replace(q([1.0], str(o.xunits)), q([2.0], str(o.yunits))))
    if hasattr(o, "set_transmission"):
        add("transmission", lambda o: o.set_transmission([6.0, 8.0], [0.1, 0.2]))
    if hasattr(o, "addattenuator"):
        add("attenuator", lambda o: o.addattenuator("BeamFilter7", material("compound"), 0.1))
        add("attenuators", lambda o: o.removebeamfilters())
    if hasattr(o, "mcagain") and not hasattr(o, "anglein"):
        add("gain", lambda o: setattr(o, "mcagain", 0.5))
    if hasattr(o, "detectorposition"):
        add("position", lambda o: setattr(o, "detectorposition", q(17.0, "mm")))
        add("zero", lambda o: setattr(o, "zerodistance", q(17.0, "mm")))
        add("angle", lambda o: setattr(o, "anglein", 11))
    if hasattr(o, "darkcurrent") and hasattr(o, "gainrounder"):
        add("dark", lambda o: setattr(o, "darkcurrent", q(1e-9, "ampere")))
        add("optics", lambda o: o.optics.set_transmission([6.0, 8.0], [0.1, 0.2]))
    if hasattr(o, "xrfgeometries"):
        add("xrf position", lambda o: setattr(o.xrfgeometries[0], "detectorposition", q(17.0, "mm")))
        add("diode", lambda o: setattr(o.diodeI0, "darkcurrent", q(1e-9, "ampere")))
    return out


def _types():
    from spectrocrunch.materials import types

    return types


def attempt(f, o):
    try:
        f(o)
    except Exception:
        return False
    return True


def one_object(cls, cfg, ctx, full=True):
    from spectrocrunch.patch import jsonpickle

    build, cfgs, fs = table(True)[cls]
    case = {"kind": "object", "class": cls, "config": cfg}
    ctx.tick()
    ctx.current = case
    ctx.state((cls, repr(cfg)))
    try:
        o = build(**cfg)
    except Exception as e:
        return ctx.fail("build %s %s" % (cls, type(e).__name__), case, "%s %s cannot be made: %s" % (cls, cfg, e))
    what = "%s %s" % (type(o).__name__, cfg)
    t0 = tree(o)
    texts = None

    def compare(name, r, ref, s0, hashes=True):
        try:
            if type(r) is not type(ref):
                return ctx.fail("%s %s type" % (name, cls), case, "%s, %s: is a %s" % (what, name, type(r)))
            if not (r == ref) or r != ref or not (ref == r):
                return ctx.fail("%s %s equal" % (name, cls), case, "%s is not equal when %s" % (what, name))
            if hashes and type(ref).__hash__ is not None and "_repr" in dir(ref) and hash(r) != hash(ref):
                return ctx.fail("%s %s hash" % (name, cls), case, "%s has another hash when %s" % (what, name))
        except Exception as e:
            return ctx.fail("%s %s compare %s" % (name, cls, type(e).__name__), case, "%s cannot be compared when %s: %s %s" % (what, name, type(e).__name__, e))
        d = diff(s0, tree(r))
        if d:
            return ctx.fail("%s %s %s" % (name, cls, d.split(":")[0][:80]), case, "%s is different when %s: %s" % (what, name, d))
        return True

    # saved and restored
    for name, f in (("restored", lambda x: jsonpickle.loads(jsonpickle.dumps(x))), ("restored twice", lambda x: jsonpickle.loads(jsonpickle.dumps(jsonpickle.loads(jsonpickle.dumps(x))))), ("restored in a list", lambda x: jsonpickle.loads(jsonpickle.dumps({"a": [x]}))["a"][0]), ("restored from the state", lambda x: jsonpickle.restore(jsonpickle.flatten(x))), ("deep copied", copy.deepcopy), ("copied", copy.copy)):
        ctx.trans(1)
        ctx.trace(1)
        try:
            r = f(o)
        except Exception as e:
            ctx.fail("%s %s %s" % (name, cls, type(e).__name__), case, "%s cannot be %s: %s %s" % (what, name, type(e).__name__, e))
            continue
        if not compare(name, r, o, t0):
            continue
        if name in ("restored twice", "restored in a list", "restored from the state"):
            continue
        a, b = calls(build(**cfg), fs), calls(r, fs)
        d = diff(a, b)
        if d:
            ctx.fail("%s %s call %s" % (name, cls, d.split(":")[0][:60]), case, "%s behaves differently when %s: %s" % (what, name, d))
            continue
        o = o if name != "copied" else build(**cfg)
        d = diff(t0, tree(o))
        if d:
            ctx.fail("%s %s changes" % (name, cls), case, "%s is changed by being %s or by what is done with the result: %s" % (what, name, d))
            o = build(**cfg)
        # independent of each other
        if name not in ("restored", "deep copied"):
            continue
        r = f(o)
        for m in list(_mut(o)):
            ctx.trans(1)
            r = f(o)
            if attempt(_mut(r)[m] if m in _mut(r) else _mut(o)[m], r):
                d = diff(t0, tree(o))
                if d:
                    ctx.fail("%s %s then %s" % (name, cls, m), case, "%s changes when it is %s and that is modified (%s): %s" % (what, name, m, d))
                    o = build(**cfg)
                    break
            p = build(**cfg)
            r = f(p)
            t = tree(r)
            if attempt(_mut(p)[m], p):
                d = diff(t, tree(r))
                if d:
                    ctx.fail("%s %s original %s" % (name, cls, m), case, "what is %s from %s changes with the original (%s): %s" % (name, what, m, d))
                    break
                # a modified object is saved as it is now
                try:
                    s = f(p)
                except Exception as e:
                    ctx.fail("%s %s after %s %s" % (name, cls, m, type(e).__name__), case, "%s after %s cannot be %s: %s %s" % (what, m, name, type(e).__name__, e))
                    break
                if not compare(name + " after " + m, s, p, tree(p)):
                    break
    ctx.outcome(cls)


def run_objects(shard, ctx):
    build, cfgs, fs = table(ctx.thorough)[shard["class"]]
    for i, cfg in enumerate(cfgs):
        if i % shard["of"] == shard["part"]:
            one_object(shard["class"], cfg, ctx)


# ---------------------------------------------------------------- quantities
# unit: (dimension, factor to the base unit)
UNITS = {
    "dimensionless": ("", 1.0),
    "m": ("L", 1.0),
    "mm": ("L", 1e-3),
    "um": ("L", 1e-6),
    "s": ("T", 1.0),
    "ms": ("T", 1e-3),
    "keV": ("E", 1.602176634e-16),
    "joule": ("E", 1.0),
    "hertz": ("1/T", 1.0),
    "1/ms": ("1/T", 1e3),
    "pA": ("I", 1e-12),
    "ampere": ("I", 1.0),
    "cm**2": ("L2", 1e-4),
    "mm**2": ("L2", 1e-6),
    "mm*s": ("LT", 1e-3),
    "m*ms": ("LT", 1e-3),
}
NUMBERS = [0, 3, -2.5, 1e-7, 1e30, float("nan"), float("inf"), np.float32(0.5), np.int64(7)]


def shaped():
    """Numbers in all the containers which are used for them: name -> value"""
    out = {"number %r" % (v,): v for v in NUMBERS}
    out["array 0d"] = np.array(2.5)
    out["array"] = np.array([1.0, -2.0, 0.25])
    out["ints"] = np.array([1, 2, 3])
    out["one"] = np.array([4.0])
    out["empty"] = np.array([])
    out["2d"] = np.array([[1.0, 2.0], [3.0, 4.5]])
    out["list"] = [1.0, 2, -3.5]
    out["tuple"] = (1, 2.5)
    out["empty list"] = []
    out["nested"] = [[1.0, 2.0], [3.0, 4.0]]
    return out


def mixes():
    """Lists of quantities: name -> list of (number, unit)"""
    return {
        "same": [(1.0, "mm"), (2.0, "mm")],
        "single": [(2.5, "keV")],
        "compatible": [(1.0, "mm"), (2.0, "m"), (3, "um")],
        "compatible 2": [(1.0, "m"), (2.0, "mm")],
        "incompatible": [(1.0, "mm"), (2.0, "s")],
        "with number": [(1.0, "mm"), (2.0, None)],
        "number first": [(2.0, None), (1.0, "mm")],
        "plain first": [(2.0, None), (1.0, "dimensionless")],
    }


def num(x):
    return np.asarray(x, dtype=float)


def near_equal(a, b):
    a, b = np.asarray(a), np.asarray(b, dtype=float)
    if a.dtype == object:
        return False
    if b.shape == () and a.shape == (1,):
        b = b.reshape(1)  # 0d arrays are arrays with one element
    return a.shape == b.shape and np.allclose(a.astype(float), b, rtol=1e-9 if a.dtype != np.float32 else 1e-6, atol=0, equal_nan=True)


def same_unit(u, v):
    """Dimension and factor of a pint unit are those of v"""
    d, f = UNITS[v]
    for k, (dim, fk) in UNITS.items():
        if dim == d:
            try:
                return abs(float(q(1.0, u).to(k).magnitude) * fk / f - 1) < 1e-9
            except Exception:
                return False


def run_units(shard, ctx):
    """Every helper on every value with every unit"""
    from spectrocrunch.utils import units, instance
    from spectrocrunch.patch import jsonpickle
    from spectrocrunch.patch.pint import ureg
    from pint.errors import DimensionalityError
    import operator

    u = shard["unit"]
    du, fu = UNITS[u]

    def expect(case, what, f, ok, value=None, unit=None, scalar=None, quantity=True, refuse=(DimensionalityError,)):
        """f() gives value with unit when ok, else refuses"""
        if ctx.only is not None and case != ctx.only:
            return None
        ctx.tick()
        ctx.current = case
        ctx.trans(1)
        ctx.trace(1)
        ctx.state(repr(case))
        op = case["op"]
        try:
            r = f()
        except Exception as e:
            if ok:
                ctx.fail("units %s %s" % (op, type(e).__name__), case, "%s: %s %s" % (what, type(e).__name__, str(e)[:200]))
            elif not isinstance(e, refuse):
                ctx.fail("units %s refused %s" % (op, type(e).__name__), case, "%s: %s %s" % (what, type(e).__name__, str(e)[:200]))
            else:
                ctx.outcome(op + " refused")
            return None
        if not ok:
            return ctx.fail("units %s not refused" % op, case, "%s gives %s" % (what, r))
        ctx.outcome(op)
        isq = isinstance(r, ureg.Quantity)
        if isq != quantity:
            return ctx.fail("units %s type" % op, case, "%s gives %r (%s)" % (what, r, type(r).__name__))
        m = r.magnitude if isq else r
        if isq and not same_unit(str(r.units), unit):
            return ctx.fail("units %s unit" % op, case, "%s has units %s instead of %s" % (what, r.units, unit))
        if not near_equal(m, value):
            return ctx.fail("units %s value" % op, case, "%s gives %s instead of %s" % (what, r, value))
        if scalar is not None and case["value"] != "array 0d" and (np.ndim(m) == 0) != scalar:
            return ctx.fail("units %s shape" % op, case, "%s gives %r" % (what, r))
        return r

    values = shaped()
    for vn, v in values.items():
        plain = num(v)
        c = {"kind": "units", "unit": u, "value": vn}
        arr = np.asarray(v)

        def Q():
            return ureg.Quantity(v if not isinstance(v, (list, tuple)) else np.asarray(v), u)

        def case(op, **kw):
            return dict(c, op=op, **kw)

        before = repr(Q())
        # numbers get the unit, quantities keep theirs
        expect(case("Quantity number"), "Quantity(%r, %s)" % (v, u), lambda: units.Quantity(v, u), True, plain, u)
        expect(case("Quantity quantity"), "Quantity(%s, s)" % before, lambda: units.Quantity(Q(), "s"), True, plain, u)
        expect(case("Quantity plain"), "Quantity(%r, forcequantity=False)" % (v,), lambda: units.Quantity(v, forcequantity=False), True, plain, quantity=False)
        expect(case("asqarray number"), "asqarray(%r)" % (v,), lambda: units.asqarray(v), True, np.atleast_1d(plain) if plain.ndim == 0 else plain, "dimensionless", scalar=False)
        expect(case("asqarray quantity"), "asqarray(%s)" % before, lambda: units.asqarray(Q()), True, np.atleast_1d(plain) if plain.ndim == 0 else plain, u, scalar=False)

        def restored():
            a, func = units.asqarrayf(Q())
            return func(a)

        if vn != "array 0d":
            expect(case("asqarrayf"), "asqarrayf(%s) restored" % before, restored, True, plain, u, scalar=plain.ndim == 0)
        # the same value as JSON
        expect(case("json"), "%s restored from JSON" % before, lambda: jsonpickle.loads(jsonpickle.dumps(Q())), True, plain, u, scalar=plain.ndim == 0)
        expect(case("json twice"), "%s restored twice" % before, lambda: jsonpickle.loads(jsonpickle.dumps({"a": jsonpickle.loads(jsonpickle.dumps([Q()]))}))["a"][0], True, plain, u)
        expect(case("flatten"), "%s restored from its state" % before, lambda: jsonpickle.restore(jsonpickle.flatten(Q())), True, plain, u)
        expect(case("deepcopy"), "%s copied" % before, lambda: copy.deepcopy(Q()), True, plain, u)
        if plain.size and np.isfinite(plain).all() and np.abs(plain).max() < 1e15:
            expect(case("astype"), "astype(%s)" % before, lambda: units.astype(Q(), int), True, plain.astype(np.int64), u)
        if vn == "number 3":
            r = jsonpickle.loads(jsonpickle.dumps(ureg.Unit(u)))
            if r != ureg.Unit(u):
                ctx.fail("units json unit", case("json unit"), "unit %s is restored as %s" % (u, r))
        for w, (dw, fw) in UNITS.items():
            ok = dw == du
            conv = plain * (fu / fw) if ok else None
            expect(case("magnitude", to=w), "magnitude(%s, %s)" % (before, w), lambda: units.magnitude(Q(), ureg.Unit(w)), ok, conv, quantity=False)
            expect(case("umagnitude", to=w), "umagnitude(%s, %s)" % (before, w), lambda: units.umagnitude(Q(), w), ok, conv, quantity=False)
            expect(case("like", to=w), "quantity_like(%s, 1 %s)" % (before, w), lambda: units.quantity_like(Q(), q(1.0, w)), ok, conv, w)
            expect(case("unitsto", to=w), "unitsto(%s, %s)" % (before, w), lambda: units.unitsto(Q(), w), ok, conv, w, refuse=(RuntimeError, DimensionalityError))
            expect(case("unitsto first", to=w), "unitsto(%s, [pA, %s, %s])" % (before, w, u), lambda: units.unitsto(Q(), ["pA", w, u]), True, plain * (fu / UNITS["pA" if du == "I" else w if ok else u][1]), "pA" if du == "I" else w if ok else u)
            if ok:

                def there_and_back():
                    return units.quantity_like(units.quantity_like(Q(), q(2.0, w)), q(3.0, u))

                expect(case("back", to=w), "%s to %s and back" % (before, w), there_and_back, True, plain, u)
            # operations
            if plain.ndim == 0:
                for name, f in (("add", operator.add), ("sub", operator.sub)):
                    expect(case(name, to=w), "%s %s 2.5 %s" % (before, name, w), lambda: units.binary_operator(Q(), q(2.5, w), f), ok, f(plain, 2.5 * fw / fu), u)
                if not np.isnan(plain):
                    for name in ("lt", "ge"):
                        f = getattr(operator, name)
                        a, b = float(plain) * fu, 2.5 * fw
                        if ok and abs(a - b) > 1e-9 * abs(b):
                            expect(case(name, to=w), "%s %s 2.5 %s" % (before, name, w), lambda: float(units.binary_operator(Q(), q(2.5, w), f)), True, float(f(a, b)), quantity=False)
                        elif not ok:
                            expect(case(name, to=w), "%s %s 2.5 %s" % (before, name, w), lambda: units.binary_operator(Q(), q(2.5, w), f), False)
        # numbers are not quantities with units
        expect(case("magnitude number"), "magnitude(%r, %s)" % (v, u), lambda: units.magnitude(v, ureg.Unit(u)), u == "dimensionless" or plain.size == 0, plain, quantity=False)
        expect(case("umagnitude number"), "umagnitude(%r, %s)" % (v, u), lambda: units.umagnitude(v, u), True, plain, quantity=False)
        expect(case("like number"), "quantity_like(%r, 1 %s)" % (v, u), lambda: units.quantity_like(v, q(1.0, u)), True, plain, u)
        if repr(Q()) != before:
            ctx.fail("units modified", case("modified"), "%s has become %s" % (before, Q()))
    # lists of quantities
    if u == "mm":
        for mn, items in mixes().items():
            for w in UNITS:
                c = {"kind": "units", "unit": u, "mix": mn, "to": w}
                make = lambda: [q(a, b) if b else a for a, b in items]
                ulist = [b or "dimensionless" for _, b in items]
                ok = len({UNITS[b][0] for b in ulist}) == 1
                first = ulist[0]
                raw = np.array([a * UNITS[b][1] for (a, _), b in zip(items, ulist)]) if ok else None
                if w == "mm":
                    isq = items[0][1] is not None
                    expect(dict(c, op="list Quantity"), "Quantity(%s)" % items, lambda: units.Quantity(make()), ok, raw / UNITS[first][1] if ok else None, first)
                    expect(dict(c, op="list asqarray"), "asqarray(%s)" % items, lambda: units.asqarray(make()), ok, raw / UNITS[first][1] if ok else None, first)
                    if all(b for _, b in items):
                        got = [str(x) for x in units.units(make())]
                        if got != [str(ureg.Unit(b)) for b in ulist]:
                            ctx.fail("units units", dict(c, op="units"), "units(%s) gives %s" % (items, got))
                okw = ok and UNITS[w][0] == UNITS[first][0]
                allq = all(b for _, b in items) or w == "dimensionless"
                expect(dict(c, op="list magnitude"), "magnitude(%s, %s)" % (items, w), lambda: units.magnitude(make(), ureg.Unit(w)), okw and allq, raw / UNITS[w][1] if okw else None, quantity=False)
                if all(b for _, b in items):
                    expect(dict(c, op="list umagnitude"), "umagnitude(%s, %s)" % (items, w), lambda: units.umagnitude(make(), w), okw, raw / UNITS[w][1] if okw else None, quantity=False)
                    expect(dict(c, op="list like"), "quantity_like(%s, 1 %s)" % (items, w), lambda: units.quantity_like(make(), q(1.0, w)), okw, raw / UNITS[w][1] if okw else None, w)
                    expect(dict(c, op="list unitsto"), "unitsto(%s, %s)" % (items, w), lambda: units.unitsto(make(), [w]), okw, raw / UNITS[w][1] if okw else None, w, refuse=(RuntimeError, DimensionalityError))


# ---------------------------------------------------------------- shards
BIG = {"element": 4, "compound": 8, "mixture": 8, "multilayer": 6, "lut": 2, "material": 2, "xrfdetector": 4, "diode": 16, "geometry": 2, "xrfgeometry": 6, "qxrf": 16, "scintillator": 2}


def shards(tier):
    names = ["element", "compound", "mixture", "named", "shell", "line", "multilayer", "lut", "optics", "synchrotron", "tube", "jones", "stokes", "emspectrum", "scintillator", "material", "xrfdetector", "area", "small", "diode", "geometry", "diodegeometry", "xrfgeometry", "motor", "qxrf"]
    return [{"kind": "units", "unit": u} for u in UNITS] + [{"kind": "objects", "class": n, "part": p, "of": BIG.get(n, 1)} for n in names for p in range(BIG.get(n, 1))]


def shard_priority(s):
    return -BIG.get(s.get("class"), 0)


RUN = {"objects": run_objects, "units": run_units}


def run_shard(shard, ctx):
    ctx.only = None
    RUN[shard["kind"]](shard, ctx)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if case["kind"] == "units":
        ctx.only = case
        return run_units(case, ctx)
    cfg = case["config"]
    for c in table(True)[case["class"]][1]:
        if repr(c) == repr(cfg) or str(c).replace("(", "[").replace(")", "]") == str(cfg).replace("(", "[").replace(")", "]").replace(",]", "]"):
            cfg = c
    one_object(case["class"], cfg, ctx)
