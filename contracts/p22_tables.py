"""Tabulated decay spectra: boosts of the rest-frame tables."""
import os
import numpy as np
from vc.api import contract, Real, Int, Arr, Choice
PROPS = ["K22"]
S = "hazma.spectra."
# table of the rest-frame spectrum, number of times it counts, mass of the parent
POSITRON = {
    "charged_kaon": ("charged_kaon", 1, "charged_kaon"), "long_kaon": ("long_kaon", 1, "neutral_kaon"), "short_kaon": ("short_kaon", 1, "neutral_kaon"),
    "eta": ("eta", 1, "eta"), "eta_prime": ("eta_prime", 1, "eta_prime"), "omega": ("omega", 1, "omega"), "phi": ("phi", 1, "phi"),
    # the table of the rho is that of one charged pion
    "neutral_rho": ("rho", 2, "rho"), "charged_rho": ("rho", 1, "rho"),
}
NEUTRINO = {k: (k, m) for k, (_, _, m) in POSITRON.items()}
# the tables named after the charged rho are those of two charged pions (their column is pi pi)
NEUTRINO.update(neutral_rho=("charged_rho", "rho"), charged_rho=("neutral_rho", "rho"))


def table(kind, name):
    p = os.path.join(os.environ.get("VC_REPO", "/repo"), "hazma", "spectra", "_" + kind, "data", name + ".csv")
    return np.loadtxt(p, delimiter=",").T


def columns(C, kind, name):
    t = table(kind, name)
    return t[0], np.sum(t[1:], axis=0)


def boosted(C, spline, x, k, E, m):
    """the spectrum in the frame where the parent has energy E, of products of energy x and momentum k"""
    g = E / m
    b = C.sqrt(1 - g ** -2)
    return spline.integral(g * (x - b * k), g * (x + b * k)) / (2 * g * b)


MODE = Choice("below", "rest", "moving")
U = Real(0, 1, samp=(0.05, 0.95))
T = Real(1e-9, None, samp=(1e-4, 4.0))
X = Real(0.001, None, samp=(0.1, 900.0))


def parent(P, m):
    return m * P.u if P.mode == "below" else m if P.mode == "rest" else m * (1 + P.t)


@contract("K22", [S + "_positron:dnde_positron_" + k for k in POSITRON] + [S + "_positron._utils:" + k for k in ("load_interp", "dnde_positron", "_dnde_positron_point", "_dnde_positron_array")], params=dict(name=Choice(*POSITRON), mode=MODE, u=U, t=T, x=X, xs=Arr(X)))
def positron_tables(C, P):
    f = getattr(C.mod("hazma.spectra"), "dnde_positron_" + P.name)
    par = C.mod("hazma.parameters")
    tab, n, mass = POSITRON[P.name]
    me, m = par.electron_mass, getattr(par, mass + "_mass")
    e, dn = columns(C, "positron", tab + "_positron")
    s = C.mod("scipy.interpolate").InterpolatedUnivariateSpline(e, dn / np.sqrt(e ** 2 - me ** 2), k=1, ext=1)
    E = parent(P, m)

    def want(x):
        k = C.sqrt(C.ite(x < me, 0, x ** 2 - me ** 2))
        if P.mode == "below":
            return 0 * x
        return C.ite(x < me, 0, n * (s(x) * k if P.mode == "rest" else boosted(C, s, x, k, E, m)))
    C.eq(f(P.x, E), want(P.x), "the positron spectrum is the boosted rest-frame table")
    C.eq(f(P.xs, E), C.each(want, P.xs), "arrays agree with numbers")


@contract("K22", [S + "_neutrino:dnde_neutrino_" + k for k in NEUTRINO] + [S + "_neutrino._utils:" + k for k in ("load_interp", "dnde_neutrino", "_dnde_neutrino_point", "_dnde_neutrino")], params=dict(name=Choice(*NEUTRINO), mode=MODE, u=U, t=T, x=X, xs=Arr(X)))
def neutrino_tables(C, P):
    f = getattr(C.mod("hazma.spectra"), "dnde_neutrino_" + P.name)
    tab, mass = NEUTRINO[P.name]
    m = getattr(C.mod("hazma.parameters"), mass + "_mass")
    E = parent(P, m)
    spl = []
    for fl in ("e", "mu"):
        e, dn = columns(C, "neutrino", "%s_neutrino_%s" % (tab, fl))
        spl.append(C.mod("scipy.interpolate").InterpolatedUnivariateSpline(e, dn / e, k=2, ext=1))

    def want(i, x):
        if i == 2 or P.mode == "below":
            return 0 * x
        return spl[i](x) * x if P.mode == "rest" else boosted(C, spl[i], x, x, E, m)
    one, arr = f(P.x, E), f(P.xs, E)
    for i, fl in enumerate(("e", "mu", "tau")):
        C.eq(one[i], want(i, P.x), "neutrino spectrum of flavor " + fl)
        C.eq(arr[i], C.each(lambda x: want(i, x), P.xs), "array of energies, flavor " + fl)
        C.eq(f(P.x, E, flavor=fl), want(i, P.x), "the spectrum of one flavor at one energy is a number: " + fl)
        C.eq(f(P.xs, E, flavor=fl), C.each(lambda x: want(i, x), P.xs), "the spectrum of one flavor: " + fl)


@contract("K22", [], params=dict(name=Choice("short_kaon", "neutral_rho", "charged_rho", "eta", "omega")))
def lepton_numbers(C, P):
    """every positron or electron of these decays comes from a muon, with one electron neutrino and, with the decay of its pion, two muon neutrinos:
    the tables assigned to the particles by the contracts above agree with each other"""
    tab, n, _ = POSITRON[P.name]
    count = lambda kind, name: float(np.trapezoid(*columns(C, kind, name)[::-1]))
    ne = n * count("positron", tab + "_positron")
    n1, n2 = (count("neutrino", NEUTRINO[P.name][0] + "_neutrino_" + fl) for fl in ("e", "mu"))
    C.true(abs(n1 - ne) < 0.03 * ne, "as many electron neutrinos as positrons and electrons")
    C.true(abs(n2 - 2 * ne) < 0.06 * ne, "twice as many muon neutrinos")


COMPILED = {"photon": ["muon", "neutral_pion", "charged_pion", "charged_kaon", "long_kaon", "short_kaon", "eta", "eta_prime", "charged_rho", "neutral_rho", "omega", "phi"], "positron": ["muon", "charged_pion"], "neutrino": ["muon", "charged_pion"]}


@contract("K22", [S + "_%s:dnde_%s_%s" % (k, k, n) for k, ns in COMPILED.items() for n in ns], params=dict(which=Choice(*[(k, n) for k, ns in COMPILED.items() for n in ns]), flavor=Choice("all", "e", "mu", "tau"), E=X, x=X, xs=Arr(X)),
          requires=lambda P: P.which[0] == "neutrino" or P.flavor == "all")
def compiled_spectra(C, P):
    """the public functions hand their arguments to the compiled spectrum of the same name"""
    kind, name = P.which
    core, f = [C.fn("core%d" % i, 2, 0) for i in range(3)], getattr(C.mod("hazma.spectra"), "dnde_%s_%s" % P.which)
    every = lambda x, E: C.np.array([g(x, E) for g in core])
    C.patch("hazma._core." + kind, type("Compiled", (), {"dnde_%s_%s" % P.which: staticmethod(every if kind == "neutrino" else core[0])}))
    for x in (P.x, P.xs):
        if kind != "neutrino":
            C.eq(f(x, P.E), core[0](x, P.E), "the compiled spectrum of the same name")
        elif P.flavor == "all":
            got = f(x, P.E)
            for i in range(3):
                C.eq(got[i], core[i](x, P.E), "one row per flavor")
        else:
            C.eq(f(x, P.E, flavor=P.flavor), core[("e", "mu", "tau").index(P.flavor)](x, P.E), "the row of the flavor")
    if kind == "neutrino":
        C.raises(ValueError, lambda: f(P.x, P.E, flavor="none"), "unknown flavors are rejected")
