"""Gamma-ray limits: bins, windows, the Fisher matrix and parameter grids."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Keyed, Bool
PROPS = ["K11"]
GL = "hazma.theory._theory_gamma_ray_limits"
G = GL + ":TheoryGammaRayLimits."
TC = "hazma.theory._theory_constrain:TheoryConstrain."
LA = "hazma.limits._abstract:"
POS = Real(0, None, samp=(0.3, 3.0))
EN = Real(0, None, samp=(5.0, 90.0))
MX = Real(0, None, samp=(50.0, 400.0))
N = Int(1, None, samp=(1, 5))
BIN = dict(n=N, lo=Arr(EN, shape=("n",)), w=Arr(POS, shape=("n",)), flux=Arr(POS, shape=("n",)), err=Arr(POS, shape=("n",)))
TARGET = dict(J=POS, D=POS, dw=POS, vx=Real(0, None, closed=True, samp=(0.0, 0.3)))
KIND = Choice("ann", "dec")
NS = Real(0, None, samp=(0.5, 5.0))


class Thing:
    def __init__(self, **k):
        self.__dict__.update(k)


def target(P):
    return Thing(J=P.J, D=P.D, dOmega=P.dw, vx=P.vx)


def measurement(P, res=None):
    return Thing(e_lows=P.lo, e_highs=P.lo + P.w, fluxes=P.flux, upper_errors=P.err, lower_errors=None, energy_res=res, target=target(P))


def flux_per_rate(C, P):
    """photons per area, time and unit rate: annihilation of particles that are not their own antiparticles, or decay"""
    if P.kind == "ann":
        return P.J * P.dw / (4 * C.pi) / (4 * P.mx ** 2)
    return P.D * P.dw / (4 * C.pi) / P.mx


def com(P):
    return 2 * P.mx * (1 + P.vx ** 2 / 2)


class Folded:
    """a folded spectrum: its values, its integral and its knots are arbitrary"""

    def __init__(self, P):
        self.P = P

    def __call__(self, e):
        return self.P.f(e)

    def integral(self, a, b):
        return self.P.I(a, b)

    def get_knots(self):
        return self.P.knots


def model(C, P, asked):
    class Model(C.mod(GL).TheoryGammaRayLimits):
        kind = P.kind
        mx = P.mx

        if P.kind == "ann":
            def total_conv_spectrum_fn(self, e_min, e_max, e_cm, energy_res, n_pts=1000):
                asked.append((e_min, e_max, e_cm, energy_res))
                return Folded(P)
        else:
            def total_conv_spectrum_fn(self, e_min, e_max, energy_res, n_pts=1000):
                asked.append((e_min, e_max, com(P), energy_res))
                return Folded(P)
    return Model()


def spectrum_asked(C, P, asked, lo, hi, res):
    C.true(len(asked) > 0, "the model's folded spectrum is used")
    for a, b, e, r in asked:
        C.eq(a, lo, "folded from the lowest energy of the instrument")
        C.eq(b, hi, "folded up to the highest energy of the instrument")
        C.eq(e, com(P), "centre-of-mass energy of the target's relative velocity")
        C.true(r is res, "folded with the instrument's resolution")


def most_stringent(C, lim, phi, allowed, what):
    """lim is the smallest allowed / phi over the bins with a positive signal"""
    ok = phi > 0
    if C.np.any(ok):
        C.eq(lim, C.np.min((allowed / phi)[ok]), what)
    else:
        C.eq(lim, C.np.inf, "no limit without a signal")


def allowed_flux(P, ns):
    return P.dw * P.w * (P.flux + ns * P.err)


@contract("K11", [GL + ":constrain_one_bin"], params=dict(BIN, phi=Arr(Real(samp=(-0.3, 3.0)), shape=("n",)), ns=NS, **TARGET))
def one_bin_limit(C, P):
    lim = C.mod(GL).constrain_one_bin(P.phi, measurement(P), P.ns)
    most_stringent(C, lim, P.phi, allowed_flux(P, P.ns), "no bin exceeds the flux plus the given number of errors, one bin attains it")


@contract("K11", [GL + ":constrain_chi_squared"], params=dict(BIN, phi=Arr(Real(samp=(-0.3, 20.0)), shape=("n",)), ns=NS, **TARGET))
def chi_squared_limit(C, P):
    mod = C.mod(GL)
    st = C.mod("scipy.stats")
    lim = mod.constrain_chi_squared(P.phi, measurement(P), P.ns)
    excess = C.np.maximum(P.phi - P.dw * P.w * P.flux, 0)
    chi2 = C.np.sum((excess / (P.dw * P.w * P.err)) ** 2)
    if chi2 == 0:
        C.eq(lim, C.np.inf, "no limit without an excess")
    else:
        C.eq(lim, C.sqrt(st.chi2.ppf(st.norm.cdf(P.ns), P.n) / chi2), "critical over observed chi squared of the excesses, in the rate")


@contract("K11", [G + "binned_limit", G + "_compute_fluxes"], params=dict(BIN, kind=KIND, mx=MX, f=Fn(1), I=Fn(2), method=Choice("1bin", "chi2"), ns=NS, **TARGET))
def binned_limit(C, P):
    asked = []
    res = object()
    m = measurement(P, res)
    M = model(C, P, asked)
    lim = M.binned_limit(m, P.ns, P.method)
    mod = C.mod(GL)
    phi = flux_per_rate(C, P) * C.each(lambda k: P.I(k, k), P.lo) if False else None
    spectrum_asked(C, P, asked, P.lo[0], (P.lo + P.w)[-1], res)
    phi = flux_per_rate(C, P) * P.I(P.lo, P.lo + P.w)
    C.eq(lim, (mod.constrain_one_bin if P.method == "1bin" else mod.constrain_chi_squared)(phi, m, P.ns), "bins filled by the integral of the folded spectrum times the flux factor of the target")
    if P.method == "1bin":
        most_stringent(C, lim, phi, allowed_flux(P, P.ns), "largest rate that overshoots no bin")


@contract("K11", [G + "binned_limit"], params=dict(BIN, kind=KIND, mx=MX, f=Fn(1), I=Fn(2), **TARGET))
def binned_limit_defaults(C, P):
    m = measurement(P, None)
    M = model(C, P, [])
    C.eq(M.binned_limit(m), M.binned_limit(m, 2.0, "1bin"), "two standard deviations in one bin by default")
    C.raises(Exception, lambda: M.binned_limit(m, 2.0, "best"), "unknown methods are rejected")


class Area:
    def __init__(self, f, x):
        self.f, self.x = f, x

    def __call__(self, e):
        return self.f(e)


GRID = Arr(EN, increasing=True, minlen=2)


@contract("K11", [G + "unbinned_limit"], params=dict(kind=KIND, mx=MX, f=Fn(1, 0, 2), I=Fn(2), A=Fn(1, 0, 2), bg=Fn(1, 0.5, 2), tab=GRID, knots=GRID, grid=GRID, ns=NS, T=POS, own=Bool(), **TARGET))
def unbinned_limit(C, P):
    asked = []
    res = object()
    M = model(C, P, asked)
    k = dict(e_grid=P.grid) if P.own else dict(n_grid=4)
    # the windows lie inside the table of the effective area
    lo, hi = P.tab[0], P.tab[-1]
    knots = P.knots
    lim = M.unbinned_limit(Area(P.A, P.tab), res, P.T, target(P), Thing(dPhi_dEdOmega=P.bg), n_sigma=P.ns, **k)
    spectrum_asked(C, P, asked, lo, hi, res)
    spl = C.mod("scipy.interpolate").InterpolatedUnivariateSpline
    S = spl(knots, P.f(knots) * P.A(knots), k=1, ext="raise")
    B = spl(knots, P.bg(knots) * P.A(knots), k=1, ext="raise")
    grid = P.grid if P.own else C.np.geomspace(lo, hi, 4)
    best = C.best_pair(grid, lambda a, b: S.integral(a, b) / C.sqrt(B.integral(a, b)))
    # signal and background counts of a rate of one: flux times area and time
    C.eq(lim * best * flux_per_rate(C, P) * P.T / C.sqrt(P.T * P.dw), P.ns, "the best window reaches the requested signal over the root of the background")


class Background:
    """a parametric background with two parameters: its flux and derivatives are arbitrary"""

    def __init__(self, P, order):
        self.P = P
        self.params = {k: P.par for k in order}

    def dPhi_dEdOmega(self, e):
        return self.P.bg(e)

    def derivatives(self, e):
        return {"norm": self.P.d1(e), "slope": self.P.d2(e)}


def information(C, P, own):
    lo, hi = P.tab[0], P.tab[-1]
    grid = P.grid if own else C.np.geomspace(lo, hi, 20)
    spl = C.mod("scipy.interpolate").InterpolatedUnivariateSpline
    d = {"rate": flux_per_rate(C, P) * P.f(grid), "norm": P.d1(grid) * P.dw, "slope": P.d2(grid) * P.dw}

    def element(a, b):
        return spl(grid, d[a] * d[b] / (P.bg(grid) * P.dw) * P.A(grid) * P.T, k=1, ext="raise").integral(lo, hi)
    return element


FISHER = dict(kind=KIND, mx=MX, f=Fn(1, 0, 2), I=Fn(2), A=Fn(1, 0.1, 2), bg=Fn(1, 0.5, 2), d1=Fn(1, -1, 1), d2=Fn(1, -1, 1), par=POS, tab=GRID, grid=GRID, T=POS, own=Bool(), order=Choice("norm slope", "slope norm"), **TARGET)


@contract("K11", [GL + ":fisher", GL + ":_differential_signal_flux", GL + ":_differential_signal_flux_prefactor"], params=FISHER)
def fisher_matrix(C, P):
    asked = []
    res = object()
    M = model(C, P, asked)
    k = dict(e_grid=P.grid) if P.own else {}
    r = C.mod(GL).fisher(M, Area(P.A, P.tab), res, target(P), Background(P, P.order.split()), P.T, vx=P.vx, **k)
    grid = P.grid if P.own else C.np.geomspace(P.tab[0], P.tab[-1], 20)
    spectrum_asked(C, P, asked, C.np.min(grid), C.np.max(grid), res)
    el = information(C, P, P.own)
    keys = list(r.params)
    C.true(sorted(keys) == ["norm", "rate", "slope"], "the rate and every parameter of the background")
    for i, a in enumerate(keys):
        for j, b in enumerate(keys):
            C.eq(r.fisher_matrix[i, j], el(a, b), "information on a pair of parameters: product of flux derivatives over the background flux, times exposure")


@contract("K11", [GL + ":FisherResults.limit"], params=dict(a=POS, b=POS, c=Real(-0.2, 0.2), n=NS, log=Bool()))
def fisher_bound(C, P):
    mod = C.mod(GL)
    from collections import OrderedDict
    C.assume(P.a * P.b > P.c ** 2)
    r = mod.FisherResults(fisher_matrix=C.np.matrix(C.np.array([[P.a, P.c], [P.c, P.b]])), params=OrderedDict([("rate", 0.0), ("norm", 1.0)]))
    det = P.a * P.b - P.c ** 2
    C.eq(r.limit(P.n, log=P.log), P.n * C.sqrt(P.b / det), "errors on the rate, marginalised over the background")
    C.eq(r.limit(P.n, key="norm"), P.n * C.sqrt(P.a / det), "errors on the background parameter")


@contract("K11", [G + "fisher_limit", GL + ":FisherResults.limit"], params=dict(a=POS, b=POS, c=Real(-0.2, 0.2), n1=NS, n2=NS, T=POS, vx=POS, first=Bool()))
def fisher_limit(C, P):
    from collections import OrderedDict
    mod = C.mod(GL)
    C.assume(P.a * P.b > P.c ** 2)
    given = []
    m = [[P.a, P.c], [P.c, P.b]] if P.first else [[P.b, P.c], [P.c, P.a]]
    keys = ["rate", "norm"] if P.first else ["norm", "rate"]

    def fisher(model, effective_area, energy_res, target, background_model, tobs, vx=0.001, n_grid=20, e_grid=None, k=1, ext="raise"):
        given.append((model, effective_area, energy_res, target, background_model, tobs, vx, n_grid, e_grid))
        return mod.FisherResults(fisher_matrix=C.np.matrix(C.np.array(m)), params=OrderedDict((k, 1.0) for k in keys))
    C.patch(GL + ".fisher", fisher)

    class Model(mod.TheoryGammaRayLimits):
        kind = "ann"
    M, A, R, D, B, E = Model(), object(), object(), object(), object(), object()
    r = M.fisher_limit(A, R, D, B, P.T, vx=P.vx, sigma_levels=[P.n1, P.n2], n_grid=7, e_grid=E)
    C.true(len(r) == 2, "one limit per level")
    bound = C.sqrt(P.b / (P.a * P.b - P.c ** 2))
    C.eq(r[0], P.n1 * bound, "rate at the requested level above zero, marginalised over the background")
    C.eq(r[1], P.n2 * bound, "rate at the requested level above zero, marginalised over the background")
    g = given[0]
    C.true(g[0] is M and g[1] is A and g[2] is R and g[3] is D and g[4] is B and g[7] == 7 and g[8] is E, "the information of this model, instrument, target and background")
    C.eq(g[5], P.T, "observation time")
    C.eq(g[6], P.vx, "relative velocity")


# --- parameter grids -------------------------------------------------------

def toy(C, P):
    class Toy(C.mod("hazma.theory._theory_constrain").TheoryConstrain):
        mx = 0.0
        mv = 0.0
        kept = 3.0

        def constraints(self):
            return {"one": lambda: P.f(self.mx, self.mv, self.kept), "two": lambda: P.g(self.mx, self.mv)}
    return Toy()


PLANE = dict(x0=POS, x1=POS, x2=POS, y0=POS, y1=POS, f=Fn(3), g=Fn(2))


@contract("K11", [TC + "constrain"], params=PLANE)
def parameter_plane(C, P):
    T = toy(C, P)
    xs = C.np.array([P.x0, P.x1, P.x2])
    ys = C.np.array([P.y0, P.y1])
    img = T.constrain("mx", xs, "mv", ys)
    C.true(sorted(img) == ["one", "two"], "an image per constraint")
    for i in range(2):
        for j in range(3):
            C.eq(img["one"][i, j], P.f(xs[j], ys[i], 3.0), "value of the constraint at the point of the grid")
            C.eq(img["two"][i, j], P.g(xs[j], ys[i]), "value of the constraint at the point of the grid")
    C.raises(ValueError, lambda: T.constrain("mx", xs, "mx", ys), "the parameters must differ")


@contract("K11", [TC + "custom_constrain"], params=PLANE)
def parameter_models(C, P):
    import numpy as np
    T = toy(C, P)
    xs, ys = [P.x0, P.x1, P.x2], [P.y0, P.y1]
    grid = np.empty((2, 3), dtype=object)
    for i in range(2):
        for j in range(3):
            grid[i, j] = Thing(mx=xs[j], mv=ys[i])
    img = T.custom_constrain(grid)
    for i in range(2):
        for j in range(3):
            C.eq(img["one"][i, j], P.f(xs[j], ys[i], 3.0), "value of the constraint for the model at the point of the grid")
            C.eq(img["two"][i, j], P.g(xs[j], ys[i]), "value of the constraint for the model at the point of the grid")


@contract("K11", [TC + "constrain_binned_gamma", TC + "_constrain_binned_gamma_helper"], params=dict(BIN, m0=MX, m1=MX, c0=POS, c1=POS, c2=POS, sv=Fn(2, 0.1, 2), I=Fn(3, -1, 2), ns=NS, **TARGET))
def binned_gamma_plane(C, P):
    asked = []

    class Fold:
        def __init__(self, m):
            self.m = m

        def integral(self, a, b):
            return P.I(self.m.mx, a, b)

    class Model(C.mod("hazma.theory._theory_constrain").TheoryConstrain):
        kind = "ann"
        mx = 0.0
        g = 0.0

        def annihilation_cross_sections(self, e):
            return {"total": P.sv(e, self.g)}

        def total_conv_spectrum_fn(self, a, b, e, r):
            asked.append((a, b, e, self.mx, r))
            return Fold(self)
    M = Model()
    res = object()
    img = M.constrain_binned_gamma("mx", C.np.array([P.m0, P.m1]), "g", C.np.array([P.c0, P.c1, P.c2]), measurement(P, res), P.ns)
    for a, b, e, m, r in asked:
        C.eq(a, P.lo[0], "folded from the lowest energy of the instrument")
        C.eq(b, (P.lo + P.w)[-1], "folded up to the highest energy of the instrument")
        C.eq(e, 2 * m * (1 + P.vx ** 2 / 2), "centre-of-mass energy of the target's relative velocity")
        C.true(r is res, "folded with the instrument's resolution")
    for i, g in enumerate([P.c0, P.c1, P.c2]):
        for j, m in enumerate([P.m0, P.m1]):
            e = 2 * m * (1 + P.vx ** 2 / 2)
            phi = P.sv(e, g) * P.vx * P.J * P.dw / (4 * C.pi) / (4 * m ** 2) * P.I(m, P.lo, P.lo + P.w)
            room = allowed_flux(P, P.ns) - phi
            C.eq(img[i, j], C.np.min(C.np.where(phi > 0, room, C.np.inf)), "room left in the most constraining bin, bins without a signal do not constrain")


# --- limit objects ---------------------------------------------------------

@contract("K11", [LA + "AbstractLimit.constrain", LA + "CompositeConstrainer._constrain"], params=dict(a=POS, b=POS, c=POS, f=Fn(1), g=Fn(1)))
def limits_of_many_models(C, P):
    ab = C.mod("hazma.limits._abstract")

    class L(ab.AbstractLimit):
        def __init__(self, fn, nm):
            self.fn, self.nm = fn, nm

        @property
        def description(self):
            return ""

        @property
        def name(self):
            return self.nm

        def _constrain(self, model):
            return self.fn(model.x)

    class All(ab.CompositeConstrainer):
        description = "all"
    ms = [Thing(x=P.a), Thing(x=P.b), Thing(x=P.c)]
    one = L(P.f, "f").constrain(ms)
    for i, m in enumerate(ms):
        C.eq(one[i], P.f(m.x), "one limit per model, in order")
    C.true(len(one) == 3, "one limit per model, in order")
    other = All()
    other.add_constrainer(L(P.g, "g"))
    many = All()
    many.add_constrainer(L(P.f, "f"))
    many.add_constrainer(L(P.g, "g"))
    C.true(len(many) == 2 and len(other) == 1, "collections do not share their members")
    r = many._constrain(ms)
    C.true(sorted(r) == ["f", "g"], "every member is applied")
    for i, m in enumerate(ms):
        C.eq(r["f"][i], P.f(m.x), "limits filed under the name of their constrainer")
        C.eq(r["g"][i], P.g(m.x), "limits filed under the name of their constrainer")
    many.reset_constrainers()
    C.true(len(many) == 0, "emptied")


TELESCOPES = {"ComptelLimit": "comptel", "EgretLimit": "egret", "FermiLimit": "fermi", "IntegralLimit": "integral"}


@contract("K11", ["hazma.limits._existing_telescope:ExistingTelescopeLimit._constrain"], params=dict(which=Choice(*TELESCOPES), ns=NS, method=Choice("chi2", "1bin"), L=Fn(1)))
def telescope_limits(C, P):
    et = C.mod("hazma.limits._existing_telescope")
    grp = C.mod("hazma.gamma_ray_parameters")
    seen = []

    class M:
        def binned_limit(self, m, s, method):
            seen.append((m, method))
            return P.L(s)
    lim = getattr(et, P.which)(P.ns, P.method)
    C.eq(lim.constrain([M()])[0], P.L(P.ns), "the model's binned limit at the requested level")
    m, method = seen[0]
    C.true(m is getattr(grp, TELESCOPES[P.which] + "_diffuse"), "data of the instrument the limit is named after")
    C.true(method == P.method and lim.name == TELESCOPES[P.which], "statistical procedure asked for")


@contract("K11", ["hazma.limits._relic_density:RelicDensityLimit._constrain"], params=dict(lo=POS, hi=Real(5, 50), root=Real(0.5, 2), log=Bool(), vx=Real(0, 0.1), mx=MX, own=Bool(), omega=Fn(2), sig=Fn(3), conv=Bool()))
def relic_density_limit(C, P):
    mod = C.mod("hazma.limits._relic_density")
    par = C.mod("hazma.parameters")
    calls = []

    def omega(m, semi_analytic=True):
        return P.omega(m.mx, m.g)
    C.patch("hazma.relic_density.relic_density", omega)

    def root_scalar(f, args=(), method=None, bracket=None, **k):
        calls.append((f, method, bracket))
        return Thing(root=P.root, converged=P.conv, flag="", iterations=1)
    C.extern("scipy.optimize.root_scalar", root_scalar)

    class Model:
        mx = P.mx
        g = 0.25

        def annihilation_cross_sections(self, e):
            return {"total": P.sig(e, self.mx, self.g)}
    m = Model()
    prop = "mx" if P.own else "g"
    L = mod.RelicDensityLimit(prop, P.lo, P.hi, vx=P.vx, log=P.log, method="ridder")
    r = L.constrain([m])[0]
    f, method, bracket = calls[0]
    C.true(method == "ridder", "root finder asked for")
    to = (lambda v: 10 ** v) if P.log else (lambda v: v)
    C.eq(to(bracket[0]), P.lo, "searched from the lowest value of the property")
    C.eq(to(bracket[1]), P.hi, "searched up to the highest value of the property")
    v = to(P.root)
    mx, g = (v, 0.25) if P.own else (P.mx, v)
    C.eq(r, P.sig(2 * mx * (1 + P.vx ** 2 / 2), mx, g) * P.vx * par.sv_inv_MeV_to_cm3_per_s, "thermally averaged cross section of the model that has the observed relic density")
    C.eq(f(P.root), P.omega(mx, g) - par.omega_h2_cdm, "the root is the value with the observed relic density")
    C.eq(m.mx, P.mx, "the model handed in is left alone")
    C.eq(m.g, 0.25, "the model handed in is left alone")
