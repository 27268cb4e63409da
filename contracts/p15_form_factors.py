"""Vector form factors: currents, phase-space integrals, widths, cross sections."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Either, Bool
PROPS = ["K15"]
FF = "hazma.form_factors.vector"
# class -> module, base class with the methods, kind of current
TWO = {
    "PiPi": ("_pi_pi", "_VectorFormFactorPiPiBase", "PP"), "Pi0Pi0": ("_pi_pi", "_VectorFormFactorPiPiBase", "PP"),
    "KK": ("_k_k", "_VectorFormFactorKKBase", "PP"), "K0K0": ("_k_k", "_VectorFormFactorKKBase", "PP"),
    "EtaGamma": ("_eta_gamma", None, "PA"), "Pi0Gamma": ("_pi_gamma", None, "PA"),
    "Pi0Omega": ("_pi_omega", None, "PV"), "Pi0Phi": ("_pi_phi", None, "PV"), "EtaOmega": ("_eta_omega", None, "PV"), "EtaPhi": ("_eta_phi", None, "PV"),
}
KKB, OMB, FOB = "_VectorFormFactorPiKKBase", "_VectorFormFactorPiPiOmegaBase", "_VectorFormFactorPiPiPiPiBase"
PPP = {"PiPiPi0": ("_pi_pi_pi0", None), "Pi0K0K0": ("_pi_k_k", KKB), "Pi0KpKm": ("_pi_k_k", KKB), "PiKK0": ("_pi_k_k", KKB)}
PPP2 = {"PiPiEta": ("_pi_pi_eta", None), "PiPiEtaPrime": ("_pi_pi_etap", None)}
PPV = {"PiPiOmega": ("_pi_pi_omega", OMB), "Pi0Pi0Omega": ("_pi_pi_omega", OMB)}
FOUR = {"PiPiPiPi": ("_pi_pi_pi_pi", FOB), "PiPiPi0Pi0": ("_pi_pi_pi_pi", FOB)}
ALL = dict(TWO, **PPP, **PPP2, **PPV, **FOUR)
# final-state masses, as named in the table of parameters
P0, PC, K0, KC, ET, EP, OM, PH = ("neutral_pion", "charged_pion", "neutral_kaon", "charged_kaon", "eta", "eta_prime", "omega", "phi")
FINAL = {
    "PiPi": (PC, PC), "Pi0Pi0": (P0, P0), "KK": (KC, KC), "K0K0": (K0, K0), "EtaGamma": (ET, None), "Pi0Gamma": (P0, None),
    "Pi0Omega": (P0, OM), "Pi0Phi": (P0, PH), "EtaOmega": (ET, OM), "EtaPhi": (ET, PH),
    "PiPiPi0": (P0, PC, PC), "Pi0K0K0": (K0, K0, P0), "Pi0KpKm": (KC, KC, P0), "PiKK0": (K0, KC, PC),
    "PiPiEta": (ET, PC, PC), "PiPiEtaPrime": (EP, PC, PC), "PiPiOmega": (OM, PC, PC), "Pi0Pi0Omega": (OM, P0, P0),
    "PiPiPiPi": (PC,) * 4, "PiPiPi0Pi0": (PC, PC, P0, P0),
}
Q = Real(0, None, samp=(200.0, 4000.0))
G = Real(-3, 3)
COUP = dict(gu=G, gd=G, gs=G)


def owner(name):
    mod, base = ALL[name][:2]
    return "%s.%s:%s" % (FF, mod, base or "VectorFormFactor" + name)


def methods(names, *ms):
    return sorted({owner(n) + "." + m for n in names for m in ms})


def new(C, name):
    return getattr(C.mod(FF + "." + ALL[name][0]), "VectorFormFactor" + name)()


def masses(C, name):
    par = C.mod("hazma.parameters")
    return [0 if m is None else getattr(par, m + "_mass") for m in FINAL[name]]


def kallen(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + a * c + b * c)


# --- stand-ins for callees under contract of their own -----------------------

def no_fit(orig, self, *a, **k):
    """the resonance table plays no role once the form factor is abstract"""


def cfn(name, n):
    re, im = [Fn(n).make_sym(name + x, {}) for x in (".re", ".im")]
    return lambda *a: re(*a) + 1j * im(*a)


def open_only(self, q, v):
    from vc import vnp
    return vnp.where(q > sum(self.fsp_masses), v, 0 * v)


def some_ff(orig, self, q, couplings):
    """an arbitrary complex function of energy and couplings, zero below threshold"""
    return open_only(self, q, cfn("ff." + type(self).__name__, 4)(q, *couplings))


def some_ff_s(orig, self, q, s, couplings):
    return cfn("ff." + type(self).__name__, 5)(q, s, *couplings)


def some_ff_st(orig, self, q, s, t, couplings):
    return cfn("ff." + type(self).__name__, 6)(q, s, t, *couplings)


def some_integral(orig, self, q, couplings, **opts):
    """an arbitrary positive function, zero below threshold, for every choice of the options"""
    tag = ",".join("%s=%s" % (k, v if v is None or isinstance(v, str) else float(v)) for k, v in sorted(opts.items()) if v is not None)
    return open_only(self, q, Fn(4, 0, nonneg=True).make_sym("int.%s(%s)" % (type(self).__name__, tag), {})(q, *couplings))


FITS = {FF + "._pi_pi:VectorFormFactorPiPiFitData.__post_init__": no_fit, FF + "._k_k:VectorFormFactorKKFitData.__post_init__": no_fit}
INTEGRALS = dict(FITS, **{m: some_integral for m in methods(ALL, "integrated_form_factor")})


# --- final states -------------------------------------------------------------

@contract("K15", methods(ALL, "__post_init__"), uses=FITS, params=dict(name=Choice(*ALL)))
def final_states(C, P):
    V = new(C, P.name)
    C.eq(len(V.fsp_masses), len(FINAL[P.name]), "number of particles")
    tol = 1e-5 if P.name in FOUR else 1e-12
    for a, b in zip(V.fsp_masses, masses(C, P.name)):
        C.le(C.np.abs(a - b), tol * b, "masses of the final state")


# --- widths and cross sections --------------------------------------------------

OPTS = {n: dict(method="quad", npts=500, epsrel=1e-2, epsabs=1e-6) for n in PPP}
OPTS.update({n: dict(npts=1000) for n in FOUR})


@contract("K15", methods(ALL, "width"), uses=INTEGRALS, params=dict(COUP, name=Choice(*ALL), opt=Choice(False, True), q=Q, qs=Arr(Q, minlen=1)), cost=0)
def widths(C, P):
    V = new(C, P.name)
    c = (P.gu, P.gd, P.gs)
    k = OPTS.get(P.name, {}) if P.opt else {}
    for q in (P.q, P.qs):
        C.eq(V.width(mv=q, couplings=c, **k), q / 2 * V.integrated_form_factor(q=q, couplings=c, **defaults(P, k)), "half the mass times the integrated form factor")


def defaults(P, k):
    """options the width uses unless told otherwise"""
    if k or P.name not in OPTS:
        return k
    if P.name in FOUR:
        return dict(npts=1 << 15)
    return dict(method="rambo" if P.name == "PiPiPi0" else "quad", npts=1 << 14, epsrel=1e-3, epsabs=0.0)


@contract("K15", methods(ALL, "cross_section"), uses=INTEGRALS,
          params=dict(COUP, name=Choice(*ALL), opt=Choice(False, True), array=Choice(False, True), q=Q, h=Arr(Real(0, None, samp=(1.0, 4000.0)), minlen=1), mx=Real(0, None, samp=(1.0, 99.0)), mv=Q, gx=G, wv=Real(0, None, samp=(0.1, 500.0))),
          requires=lambda P: P.q > 2 * P.mx)
def cross_sections(C, P):
    V = new(C, P.name)
    c = (P.gu, P.gd, P.gs)
    k = OPTS.get(P.name, {}) if P.opt else {}
    q = 2 * P.mx + P.h if P.array else P.q
    s = q * q
    flux = P.gx ** 2 * (s + 2 * P.mx ** 2) / (C.sqrt(s - 4 * P.mx ** 2) * ((s - P.mv ** 2) ** 2 + (P.mv * P.wv) ** 2))
    C.eq(V.cross_section(q=q, mx=P.mx, mv=P.mv, gvxx=P.gx, wv=P.wv, couplings=c, **k), flux * q / 2 * V.integrated_form_factor(q=q, couplings=c, **defaults(P, k)), "mediator in the s-channel")


# --- two-body integrals ---------------------------------------------------------

@contract("K15", methods(TWO, "integrated_form_factor"), uses=dict(FITS, **{m: some_ff for m in methods(TWO, "form_factor")}), params=dict(COUP, name=Choice(*TWO), q=Q, qs=Arr(Q, minlen=1)))
def two_body_integrals(C, P):
    V = new(C, P.name)
    c = (P.gu, P.gd, P.gs)
    m1, m2 = masses(C, P.name)
    for q in (P.q, P.qs):
        s = q * q
        lam = kallen(s, m1 ** 2, m2 ** 2)
        lor = (s - 2 * m1 ** 2 - 2 * m2 ** 2) / (3 * s) if TWO[P.name][2] == "PP" else lam / (6 * s)
        ff = V.form_factor(q=q, couplings=c)
        on = q > m1 + m2
        val = C.sqrt(C.np.clip(lam, 0, None)) / (8 * C.pi * s) * lor * C.np.abs(ff) ** 2
        C.eq(V.integrated_form_factor(q=q, couplings=c), C.np.where(on, val, 0 * val), "current squared times phase space, zero below threshold")


# --- three-body currents ----------------------------------------------------------

TBM = FF + "._three_body"
ST = dict(q=Q, s=Real(0, None, samp=(1e4, 4e6)), t=Real(0, None, samp=(1e4, 4e6)))
STS = dict(ST, n=Int(1, None, samp=(1, 4)), qs=Arr(Q, minlen=1), ss=Arr(ST["s"], shape=("n",)), ts=Arr(ST["t"], shape=("n",)))


def gram(C, V, q, s, t):
    """determinant of the scalar products of the momenta, over 3 q^2: the
    current is epsilon(p1, p2, p3), s = (p2 + p3)^2, t = (p1 + p3)^2"""
    m1, m2, m3 = V.fsp_masses
    u = q * q + m1 ** 2 + m2 ** 2 + m3 ** 2 - s - t
    a, b, c = m1 ** 2, m2 ** 2, m3 ** 2
    d23, d13, d12 = (s - b - c) / 2, (t - a - c) / 2, (u - a - b) / 2
    det = a * (b * c - d23 ** 2) - d12 * (d12 * c - d23 * d13) + d13 * (d12 * d23 - b * d13)
    return det / (3 * q * q)


def transverse(C, V, q, s, t):
    """the current is the polarisation of the vector meson, transverse to q:
    sum over polarisations 2 + (q.p)^2 / (q^2 m^2), times F^2 / (3 q^2)"""
    m = V.fsp_masses[0]
    qp = (q * q + m ** 2 - s) / 2
    return (2 + qp ** 2 / (q * q * m ** 2)) / (3 * q * q) + 0 * t


def lorentz(C, name, V, q, s, t):
    return (transverse if name in PPV else gram)(C, V, q, s, t)


@contract("K15", [TBM + ":VectorFormFactor%s.squared_lorentz_structure" % k for k in ("PPP", "PPP2", "PPV")], params=dict(STS, name=Choice(*PPP, *PPP2, *PPV)))
def three_body_currents(C, P):
    V = new(C, P.name)
    f = V.squared_lorentz_structure
    w = lambda q, s, t: lorentz(C, P.name, V, q, s, t)
    C.eq(f(P.q, P.s, P.t), w(P.q, P.s, P.t), "one point")
    C.eq(f(P.q, P.ss, P.ts), w(P.q, P.ss, P.ts), "many points")
    C.eq(f(P.q, P.ss, P.t), w(P.q, P.ss, P.t), "many values of s")
    C.eq(f(P.q, P.s, P.ss), w(P.q, P.s, P.ss), "many values of t")
    C.eq(f(P.qs, P.s, P.t), w(P.qs, P.s, P.t), "many energies")


@contract("K15", [TBM + ":VectorFormFactor%s.squared_lorentz_structure" % k for k in ("PPP", "PPP2", "PPV")], params=dict(ST, h=Real(samp=(1.0, 1e3)), name=Choice(*PPP, *PPP2, *PPV)))
def quadratic_currents(C, P):
    """third differences in t vanish: Simpson's rule integrates the current
    over t without error"""
    f = new(C, P.name).squared_lorentz_structure
    v = [f(P.q, P.s, P.t + k * P.h) for k in range(4)]
    if not C.symbolic:
        C.atol = 1e-9 * max(abs(x) for x in v)
    C.eq(v[3] - 3 * v[2] + 3 * v[1] - v[0], 0.0, "quadratic in t")


def x_range(q, m1, m2, m3):
    return 2 * m1 / q, (q * q + m1 ** 2 - (m2 + m3) ** 2) / (q * q)


def t_range(C, q, s, m1, m2, m3):
    mid = m1 ** 2 + m3 ** 2 + (q * q - s - m1 ** 2) * (s + m3 ** 2 - m2 ** 2) / (2 * s)
    half = C.sqrt(kallen(q * q, m1 ** 2, s) * kallen(s, m2 ** 2, m3 ** 2)) / (2 * s)
    return mid - half, mid + half


def slice_t(C, P, V, q, s):
    """Simpson's rule over the values of t at a given s (exact: the current is quadratic in t)"""
    a, b = t_range(C, q, s, *V.fsp_masses)
    L = lambda t: lorentz(C, P.name, V, q, s, t)
    return (b - a) / 6 * (L(a) + 4 * L((a + b) / 2) + L(b))


def slice_ppp(C, V, q, s):
    m1, m2, m3 = V.fsp_masses
    lam = kallen(q * q, m1 ** 2, s) * kallen(s, m2 ** 2, m3 ** 2)
    return C.sqrt(lam) ** 3 / (72 * q * q * s * s)


def dalitz2(C, P, V, q, ff2):
    """current quadratic in t, form factor independent of it: ds dt / (128 pi^3 q^2)"""
    m = V.fsp_masses

    def inner(x):
        s = q * q * (1 - x) + m[0] ** 2
        return (slice_ppp(C, V, q, s) if P.name in PPP2 else slice_t(C, P, V, q, s)) * ff2(s)
    return C.integral(inner, *x_range(q, *m)) / (128 * C.pi ** 3)


@contract("K15", [TBM + ":VectorFormFactorPPP2.squared_lorentz_structure"], params=dict(q=Q, x=Real(0, 1, samp=(0.0, 1.0)), name=Choice(*PPP2)))
def current_slices(C, P):
    """the closed form of the integral of the current over t at given s"""
    V = new(C, P.name)
    q, m = P.q, V.fsp_masses
    if q > sum(m):
        lo, hi = (m[1] + m[2]) ** 2, (q - m[0]) ** 2
        s = lo + P.x * (hi - lo)
        if kallen(q * q, m[0] ** 2, s) * kallen(s, m[1] ** 2, m[2] ** 2) >= 0:
            C.eq(slice_t(C, P, V, q, s), slice_ppp(C, V, q, s), "integral of the current over t")


FF_S = dict({m: some_ff_s for m in methods(PPP2, "form_factor")}, **{m: some_ff for m in methods(PPV, "form_factor")})


@contract("K15", methods(dict(PPP2, **PPV), "integrated_form_factor"), uses=FF_S, params=dict(COUP, q=Q, name=Choice(*PPP2, *PPV)))
def partly_integrated(C, P):
    V = new(C, P.name)
    c = (P.gu, P.gd, P.gs)
    if P.name in PPV:
        ff2 = lambda s: C.np.abs(V.form_factor(P.q, c)) ** 2
    else:
        ff2 = lambda s: C.np.abs(V.form_factor(P.q, s, c)) ** 2
    w = dalitz2(C, P, V, P.q, ff2) if P.q > sum(V.fsp_masses) else 0.0
    if P.name == "Pi0Pi0Omega":
        w = w / 2
    C.eq(V.integrated_form_factor(q=P.q, couplings=c), w, "integral of current times form factor squared over the Dalitz region", tol=1e-4)


# --- form factors that depend on the place in the Dalitz region --------------------

TB3 = "hazma.phase_space._three_body"
DIST = "hazma.phase_space._dist"
FF_ST = {m: some_ff_st for m in methods(PPP, "form_factor")}


def dalitz_y(C, q, x, m1, m2, m3):
    """limits of 2 E2/q at given 2 E1/q"""
    s = q * q * (1 - x) + m1 ** 2
    mid = (q - x * q / 2) * (s + m2 ** 2 - m3 ** 2) / (2 * s)
    half = C.sqrt(kallen(q * q, m1 ** 2, s) * kallen(s, m2 ** 2, m3 ** 2)) / (4 * q * s)
    return 2 * (mid - half) / q, 2 * (mid + half) / q


def density(C, P, V, q):
    """squared current at a place of the Dalitz region"""
    c = (P.gu, P.gd, P.gs)
    if P.name in PPP:
        return lambda s, t: lorentz(C, P.name, V, q, s, t) * C.np.abs(V.form_factor(q, s, t, c)) ** 2
    return lambda s, t: lorentz(C, P.name, V, q, s, t) * C.np.abs(V.form_factor(q, s, c)) ** 2


@contract("K15", methods(PPP, "integrated_form_factor"), uses=FF_ST, params=dict(COUP, q=Q, name=Choice(*PPP)))
def fully_integrated(C, P):
    V = new(C, P.name)
    c = (P.gu, P.gd, P.gs)
    q = P.q
    m1, m2, m3 = V.fsp_masses
    if q > m1 + m2 + m3:
        f = density(C, P, V, q)

        def inner(x):
            lo, hi = dalitz_y(C, q, x, m1, m2, m3)
            return C.integral(lambda y: f(q * q * (1 - x) + m1 ** 2, q * q * (1 - y) + m2 ** 2), lo, hi)
        w = q ** 2 / (128 * C.pi ** 3) * C.integral(inner, *x_range(q, m1, m2, m3))
    else:
        w = 0.0
    C.eq(V.integrated_form_factor(q=q, couplings=c, method="quad", epsrel=1e-6), w, "integral of current times form factor squared over the Dalitz region", tol=1e-3)


class Spectrum:
    """an unknown spectrum, determined by the arguments of ThreeBody and the number of bins"""
    def __init__(self, *what):
        from vc import vnp
        self.bins = self.probabilities = vnp.np.array(list(what))


def same_inputs(self, nbins, method):
    """the spectra are a function of these; the matrix element counts by its
    value at an arbitrary place"""
    s, t = [Real(0, None).make_sym("place." + x, {}) for x in "st"]
    return [nbins, self.cme, *self.masses, self.msqrd(s, t), 0.0 if method == "quad" else 1.0]


def some_energies(orig, self, nbins, method="quad", npts=10000, epsrel=None, epsabs=None):
    return [Spectrum(i, *same_inputs(self, nbins, method)) for i in range(3)]


def some_pair_masses(orig, self, nbins, method="quad", npts=10000, epsrel=None, epsabs=None):
    return {k: Spectrum(*k, *same_inputs(self, nbins, method)) for k in ((0, 1), (0, 2), (1, 2))}


@contract("K15", methods(dict(PPP, **PPP2), "energy_distributions", "invariant_mass_distributions"),
          uses=dict(FF_ST, **FF_S, **{TB3 + ":ThreeBody.energy_distributions": some_energies, TB3 + ":ThreeBody.invariant_mass_distributions": some_pair_masses}),
          params=dict(COUP, q=Q, name=Choice(*PPP, *PPP2), nbins=Int(2, None, samp=(2, 4)), i=Choice(0, 1, 2)))
def dalitz_spectra(C, P):
    """the spectra are those of the three-body phase space with the squared current as matrix element"""
    V = new(C, P.name)
    q = P.q
    if q > sum(V.fsp_masses):
        c = (P.gu, P.gd, P.gs)
        k = dict(epsrel=1e-6) if P.name in PPP else {}
        T = C.mod(TB3).ThreeBody(q, tuple(V.fsp_masses), density(C, P, V, q))
        a, b = V.energy_distributions(q=q, nbins=P.nbins, couplings=c, **k), T.energy_distributions(P.nbins)
        C.eq(len(a), 3, "one spectrum per particle")
        C.eq(a[P.i].bins, b[P.i].bins, "energies")
        C.eq(a[P.i].probabilities, b[P.i].probabilities, "energy spectrum", tol=1e-3)
        a, b = V.invariant_mass_distributions(q=q, nbins=P.nbins, couplings=c, **k), T.invariant_mass_distributions(P.nbins)
        key = ((1, 2), (0, 2), (0, 1))[P.i]
        C.true(set(a) == {(1, 2), (0, 2), (0, 1)}, "one spectrum per pair")
        C.eq(a[key].bins, b[key].bins, "pair masses")
        C.eq(a[key].probabilities, b[key].probabilities, "pair mass spectrum", tol=1e-3)


def plain(orig, probabilities, edges):
    return probabilities


def slices(C, V, q, i, e):
    """the transverse current integrated over the Dalitz region at given energy of particle i; the
    mean of a square over an interval is the square of its middle plus a third of that of its half"""
    m = V.fsp_masses
    r = q * q + m[i] ** 2 - 2 * q * e
    j = 3 - i if i else 1
    k = 2 if not i else 0
    # the other variable, (p_i + p_j)^2 for i = 0 and (p2 + p3)^2 of the current otherwise
    lam = kallen(q * q, m[i] ** 2, r) * kallen(r, m[k] ** 2, m[j] ** 2)
    if i == 0:
        return C.sqrt(lam) / r * transverse(C, V, q, r, 0.0)
    mid = m[i] ** 2 + m[j] ** 2 + (q * q - r - m[i] ** 2) * (r + m[j] ** 2 - m[0] ** 2) / (2 * r)
    qp2 = ((q * q + m[0] ** 2 - mid) ** 2 + lam / (12 * r * r)) / 4
    return C.sqrt(lam) / r * (2 + qp2 / (q * q * m[0] ** 2)) / (3 * q * q)


@contract("K15", methods(PPV, "energy_distributions"), uses=dict({m: some_ff for m in methods(PPV, "form_factor")}, **{DIST + ":normalize_distribution": plain}), hooks={"opaque_linspace": True},
          params=dict(COUP, q=Q, name=Choice(*PPV), nbins=Int(2, None, samp=(2, 5)), i=Choice(0, 1, 2)))
def partly_spectra(C, P):
    V = new(C, P.name)
    q, m, i = P.q, V.fsp_masses, P.i
    if q > sum(m):
        d = V.energy_distributions(q, P.nbins, couplings=(P.gu, P.gd, P.gs))
        C.eq(len(d), 3, "one spectrum per particle")
        edges = d[i].bins
        C.eq(edges, C.np.linspace(m[i], (q * q + m[i] ** 2 - (sum(m) - m[i]) ** 2) / (2 * q), P.nbins + 1), "bins span the energies")
        es = (edges[1:] + edges[:-1]) / 2
        h = C.each(lambda e: slices(C, V, q, i, e), es)
        p = d[i].probabilities
        C.eq(p[:-1] * h[1:], p[1:] * h[:-1], "energy spectrum is proportional to the integrated current")


@contract("K15", methods(PPV, "invariant_mass_distributions"), uses=dict({m: some_ff for m in methods(PPV, "form_factor")}, **{DIST + ":normalize_distribution": plain}),
          params=dict(COUP, q=Q, name=Choice(*PPV), nbins=Int(2, None, samp=(2, 5)), i=Choice(0, 1, 2)))
def partly_pair_masses(C, P):
    V = new(C, P.name)
    q, m, i = P.q, V.fsp_masses, P.i
    if q > sum(m):
        c = (P.gu, P.gd, P.gs)
        d = V.invariant_mass_distributions(q, P.nbins, couplings=c)
        C.true(set(d) == {(1, 2), (0, 2), (0, 1)}, "one spectrum per pair")
        d = d[((1, 2), (0, 2), (0, 1))[i]]
        e = V.energy_distributions(q, P.nbins, couplings=c)[i]
        C.eq(d.bins ** 2, q * q + m[i] ** 2 - 2 * q * e.bins[::-1], "masses recoiling against the energies")
        C.le(d.bins[:-1], d.bins[1:], "ascending masses")
        w = lambda d: d.probabilities * (d.bins[1:] - d.bins[:-1])
        C.eq(w(d), w(e)[::-1], "pair mass and energy bins hold the same events")


# --- four pions ---------------------------------------------------------------------

MOM = dict(n=Int(1, None, samp=(1, 3)), p=Arr(Real(samp=(200.0, 900.0)), shape=(4, 4, "n")))
FP = FF + "._pi_pi_pi_pi:" + FOB


def resonance(*names):
    """an arbitrary complex function of the pair or triple mass, one for each of the resonances"""
    def model(orig, s, *par):
        return cfn("%s(%s)" % (names[0], ",".join("%.9g" % float(x) for x in par)), 1)(s)
    return model


RESONANCES = {FP + "." + n: resonance(n) for n in ("_breit_wigner3", "_propagator_a1", "_propagator_f0", "_propagator_omega")}


def reordered(C, p, order):
    return C.np.array([[p[i][j] for j in order] for i in range(4)])


@contract("K15", methods(FOUR, "form_factor"), uses=RESONANCES, params=dict(q=Q, n=Int(1, None, samp=(1, 3)), p=Arr(Real(samp=(200.0, 900.0)), shape=(4, 3, "n")), name=Choice(*FOUR)))
def four_pion_current(C, P):
    """in the rest frame of the four pions (where all events are generated) the current has no time component"""
    V = new(C, P.name)
    p = [[P.p[i][0], P.p[i][1], P.p[i][2], (0 if i else P.q) - P.p[i][0] - P.p[i][1] - P.p[i][2]] for i in range(4)]
    J = V.form_factor(C.np.array(p))
    C.shape(J, (4, P.n), "a four-vector for every event")
    if not C.symbolic:
        C.atol = 1e-9 * C.np.max(C.np.abs(J))
    C.eq(J[0], 0 * P.p[0][0], "the current is conserved")


@contract("K15", methods(["PiPiPi0Pi0"], "form_factor"), uses=RESONANCES, params=dict(MOM, c=Choice(0, 1, 2, 3)))
def neutral_pion_symmetry(C, P):
    f = new(C, "PiPiPi0Pi0").form_factor
    C.eq(f(reordered(C, P.p, (0, 1, 3, 2)))[P.c], f(P.p)[P.c], "the neutral pions are identical bosons")


@contract("K15", methods(["PiPiPi0Pi0"], "form_factor"), uses=RESONANCES, params=dict(MOM, c=Choice(0, 1, 2, 3)))
def neutral_pion_conjugation(C, P):
    f = new(C, "PiPiPi0Pi0").form_factor
    C.eq(f(reordered(C, P.p, (1, 0, 2, 3)))[P.c], -f(P.p)[P.c], "exchanging the charged pions changes the sign")


def some_neutral_current(orig, self, Q, Q2, a, b, c, d):
    """any current with the symmetries of the neutral one: even in the neutral, odd in the charged pions"""
    from vc import vnp
    F = [cfn("current%d" % i, 16) for i in range(4)]
    G = lambda f, *v: f(*[x[i] for x in v for i in range(4)])
    return vnp.np.array([G(f, a, b, c, d) + G(f, b, a, c, d) - G(f, a, b, d, c) - G(f, b, a, d, c) for f in F])


@contract("K15", methods(["PiPiPiPi"], "form_factor"), uses={FP + "._current_neutral": some_neutral_current}, params=dict(MOM, swap=Choice(0, 1, 2)))
def charged_pion_symmetry(C, P):
    f = new(C, "PiPiPiPi").form_factor
    order, sign = [((2, 1, 0, 3), 1), ((0, 3, 2, 1), 1), ((1, 0, 3, 2), -1)][P.swap]
    C.eq(f(reordered(C, P.p, order)), sign * f(P.p), "Bose symmetry" if sign > 0 else "charge conjugation")


class Events:
    """the phase-space generator: given events and weights, the latter multiplied
    by the squared matrix element; spectra are determined by what it was given"""
    def __init__(self, C, P, log):
        self.C, self.P, self.log = C, P, log

    def __call__(self, cme, masses, msqrd=None, msqrd_signature=None):
        e = Events(self.C, self.P, self.log)
        e.cme, e.masses, e.msqrd = cme, masses, msqrd
        self.log.append(e)
        return e

    def generate(self, n, *a, **k):
        self.n = n
        w = self.P.w
        return self.P.p * 0.001, (w if self.msqrd is None else w * self.msqrd(self.P.p * 0.001))


    def spectra(self, n, nbins):
        self.n, self.nbins = n, nbins
        return [self.C.mod(DIST).PhaseSpaceDistribution1D(self.P.b, self.P.y[1:])]

    def energy_distributions(self, n, nbins, *a, **k):
        return self.spectra(n, nbins) * 4

    def invariant_mass_distributions(self, n, nbins, *a, **k):
        return {(i, j): self.spectra(n, nbins)[0] for i in range(4) for j in range(i + 1, 4)}


def four_pion_density(C, P, V, p):
    """squared current, with the symmetry factors of identical pions"""
    J = V.form_factor(p)
    sq = lambda i: C.np.real(J[i] * C.np.conj(J[i]))
    t = [(p[i, 0] + p[i, 1] + p[i, 2] + p[i, 3]) * 0.001 for i in range(4)]
    q2 = t[0] ** 2 - t[1] ** 2 - t[2] ** 2 - t[3] ** 2
    return (P.gu - P.gd) ** 2 / (2 if P.name == "PiPiPi0Pi0" else 4) * (sq(1) + sq(2) + sq(3) - sq(0)) / (3 * q2)


def some_current(orig, self, Q, Q2, a, b, c, d):
    from vc import vnp
    return vnp.np.array([cfn("current%d" % i, 16)(*[v[j] for v in (a, b, c, d) for j in range(4)]) for i in range(4)])


CURRENTS = {FP + "._current_neutral": some_current, FP + "._current_charged": some_current}


@contract("K15", methods(FOUR, "integrated_form_factor"), uses=CURRENTS,
          params=dict(MOM, **COUP, q=Q, n=Int(2, None, samp=(2, 3)), w=Arr(Real(0, None, samp=(0.5, 2.0)), shape=("n",)), name=Choice(*FOUR), array=Choice(False, True)))
def four_pion_integral(C, P):
    V = new(C, P.name)
    log = []
    C.patch("hazma.phase_space.Rambo", Events(C, P, log))
    q = C.np.array([P.q]) if P.array else P.q
    v = V.integrated_form_factor(q=q, couplings=(P.gu, P.gd, P.gs), npts=P.n)
    v = v[0] if P.array else v
    on = P.q >= sum(V.fsp_masses)
    if log:
        C.true(on, "open above threshold")
        C.eq(log[-1].cme, P.q * 0.001, "energy of the events")
        C.eq(list(log[-1].masses), [m * 0.001 for m in V.fsp_masses], "masses of the events")
        C.eq(log[-1].n, P.n, "number of events")
        C.eq(v, C.np.sum(P.w * four_pion_density(C, P, V, P.p)) / P.n, "mean weight times squared current")
    else:
        C.true(C.np.logical_not(on), "closed below threshold only")
        C.eq(v, 0.0, "closed below threshold")


@contract("K15", methods(FOUR, "energy_distributions", "invariant_mass_distributions"), uses=dict(CURRENTS, **{DIST + ":normalize_distribution": plain}),
          params=dict(MOM, **COUP, q=Q, name=Choice(*FOUR), pairs=Choice(False, True), npts=Int(1, None, samp=(2, 9)), k=Int(1, None, samp=(2, 4)), m=Int(2, None, samp=(2, 5)), b=Arr(Real(0, None, samp=(0.1, 2.0)), increasing=True, shape=("m",)), y=Arr(Real(0, None, samp=(0.5, 2.0)), shape=("m",))),
          requires=lambda P: P.q > 600)
def four_pion_spectra(C, P):
    V = new(C, P.name)
    log = []
    C.patch("hazma.phase_space.Rambo", Events(C, P, log))
    f = V.invariant_mass_distributions if P.pairs else V.energy_distributions
    d = f(P.q, P.k, couplings=(P.gu, P.gd, P.gs), npts=P.npts)
    C.eq(len(d), 6 if P.pairs else 4, "one spectrum each")
    C.eq(log[-1].cme, P.q * 0.001, "energy of the events")
    C.eq(list(log[-1].masses), [m * 0.001 for m in V.fsp_masses], "masses of the events")
    C.eq([log[-1].n, log[-1].nbins], [P.npts, P.k], "number of events and bins")
    C.eq(log[-1].msqrd(P.p * 0.001), four_pion_density(C, P, V, P.p), "weighted by the squared current")
    x = d[1, 3] if P.pairs else d[2]
    C.eq(x.bins, P.b * 1000, "bins in MeV")
    w = C.mod(DIST).normalize_distribution(P.y[1:], P.b)
    C.eq(x.probabilities, w * 0.001, "probabilities per MeV")


ALPHA = {FF + "._alpha:alpha_em": lambda orig, s: Fn(1, 0, nonneg=True).make_sym("alpha", {})(s)}


# --- form factors ---------------------------------------------------------------------

RESONANT = [n for n in TWO if TWO[n][2] != "PP"]
SUMS = dict(gu=G, gd=G, gs=G, hu=G, hd=G, hs=G, k=Real(-3, 3))


def linear(C, P, f, clause):
    g, h = (P.gu, P.gd, P.gs), (P.hu, P.hd, P.hs)
    s = [a + P.k * b for a, b in zip(g, h)]
    C.eq(f(s), f(g) + P.k * f(h), clause)


@contract("K15", methods(RESONANT, "form_factor"), uses=ALPHA, params=dict(COUP, name=Choice(*RESONANT), q=Q, qs=Arr(Q, minlen=1), i=Int(0, None, samp=(0, 3))), requires=lambda P: P.i < P.qs.shape[0])
def two_body_form_factors(C, P):
    V = new(C, P.name)
    c = (P.gu, P.gd, P.gs)
    f = lambda q: V.form_factor(q=q, couplings=c)
    i = 0 if P.qs.shape[0] == 1 else P.i
    C.eq(f(P.qs)[i], f(P.qs[i]), "arrays agree with single energies")
    C.eq(C.ite(P.q <= sum(V.fsp_masses), f(P.q), 0.0), 0.0, "zero below threshold")


@contract("K15", methods(RESONANT, "form_factor"), uses=ALPHA, params=dict(SUMS, name=Choice(*RESONANT), q=Q))
def two_body_linearity(C, P):
    V = new(C, P.name)
    linear(C, P, lambda c: V.form_factor(q=P.q, couplings=c), "linear in the couplings")


def inside(V, q, s, t):
    """thresholds of the three pairs, which every place of the Dalitz region is above"""
    m1, m2, m3 = V.fsp_masses
    u = q * q + m1 ** 2 + m2 ** 2 + m3 ** 2 - s - t
    return q > m1 + m2 + m3 and s > (m2 + m3) ** 2 and t > (m1 + m3) ** 2 and u > (m1 + m2) ** 2


DAL = dict(q=Real(0, None, samp=(1500.0, 3000.0)), s=Real(0, None, samp=(4e5, 1.5e6)), t=Real(0, None, samp=(4e5, 1.5e6)))


@contract("K15", methods(PPP, "form_factor"), params=dict(DAL, name=Choice(*PPP), **SUMS))
def dalitz_linearity(C, P):
    V = new(C, P.name)
    if inside(V, P.q, P.s, P.t):
        linear(C, P, lambda c: V.form_factor(P.q, P.s, P.t, c), "linear in the couplings")


@contract("K15", methods(PPP, "form_factor"), params=dict(DAL, name=Choice(*PPP), **COUP))
def dalitz_symmetry(C, P):
    V = new(C, P.name)
    c = (P.gu, P.gd, P.gs)
    q, s, t = P.q, P.s, P.t
    if inside(V, q, s, t):
        f = V.form_factor(q, s, t, c)
        m1, m2, m3 = V.fsp_masses
        if P.name == "PiPiPi0":
            C.eq(V.form_factor(q, s, q * q + m1 ** 2 + m2 ** 2 + m3 ** 2 - s - t, c), f, "symmetric in the charged pions")
        elif P.name != "PiKK0":
            C.eq(V.form_factor(q, t, s, c), f, "symmetric in the kaons")
        one = lambda x: C.np.array([x])
        C.eq(V.form_factor(q, one(s), one(t), c)[0], f, "arrays agree with single places")


@contract("K15", methods(dict(PPP2, **PPV), "form_factor"), params=dict(DAL, name=Choice(*PPP2, *PPV), **SUMS))
def partly_linearity(C, P):
    V = new(C, P.name)
    if inside(V, P.q, P.s, P.t):
        a = (P.q,) if P.name in PPV else (P.q, P.s)
        linear(C, P, lambda c: V.form_factor(*a, c), "linear in the couplings")
        c = (P.gu, P.gd, P.gs)
        one = lambda x: C.np.array([x])
        a1 = (one(P.q),) if P.name in PPV else (P.q, one(P.s))
        C.eq(V.form_factor(*a1, c)[0], V.form_factor(*a, c), "arrays agree with single values")


# --- pion and kaon pairs: any table of resonances -----------------------------------------

PAIRS = [n for n in TWO if TWO[n][2] == "PP"]


def some_fit(pos, cplx, real):
    def model(orig, self, *a, **k):
        n = dict(n=self.n_max)
        for x in pos:
            setattr(self, x, Arr(Real(0.3, None), shape=("n",)).make_sym("fit." + x, n))
        for x in cplx:
            re, im = [Arr(Real(), shape=("n",)).make_sym("fit.%s.%s" % (x, p), n) for p in ("re", "im")]
            setattr(self, x, re + 1j * im)
        for x in real:
            setattr(self, x, Arr(Real(), shape=("n",)).make_sym("fit." + x, n))
    return model


TABLES = {
    FF + "._pi_pi:VectorFormFactorPiPiFitData.__post_init__": some_fit(("masses", "widths"), ("coup",), ("hres", "h0", "dh")),
    FF + "._k_k:VectorFormFactorKKFitData.__post_init__": some_fit([v + x for v in ("rho", "omega", "phi") for x in ("_mass", "_width")], [v + "_coup" for v in ("rho", "omega", "phi")], ("hres", "h0", "dh")),
}


def some_wave(name):
    def model(orig, s, *a, reshape=False):
        return cfn("bw." + name, 1 + len(a))(s[:, None] if reshape and hasattr(s, "__len__") else s, *a)
    return model


# every resonance shape is an arbitrary complex function of energy, mass and width
WAVES = {FF + "._utils:breit_wigner_" + n: some_wave(n) for n in ("gs", "fw", "pwave")}


def new_n(C, P):
    cls = getattr(C.mod(FF + "." + ALL[P.name][0]), "VectorFormFactor" + P.name)
    if "Pi" in P.name:
        return cls(n_max=P.n)
    V = cls()
    V.fit_data = C.mod(FF + "._k_k").VectorFormFactorKKFitData(n_max=P.n)
    return V


@contract("K15", methods(PAIRS, "form_factor"), uses=dict(TABLES, **WAVES), params=dict(COUP, name=Choice(*PAIRS), n=Int(8, None, samp=(8, 12)), q=Q, qs=Arr(Q, minlen=1), i=Int(0, None, samp=(0, 3))), requires=lambda P: P.i < P.qs.shape[0])
def pair_form_factors(C, P):
    V = new_n(C, P)
    c = (P.gu, P.gd, P.gs)
    f = lambda q: V.form_factor(q=q, couplings=c)
    C.eq(f(P.qs)[P.i], f(P.qs[P.i]), "arrays agree with single energies")
    C.eq(C.ite(P.q <= sum(V.fsp_masses), f(P.q), 0.0), 0.0, "zero below threshold")


@contract("K15", methods(PAIRS, "form_factor"), uses=dict(TABLES, **WAVES), params=dict(SUMS, name=Choice(*PAIRS), n=Int(8, None, samp=(8, 12)), q=Q))
def pair_linearity(C, P):
    V = new_n(C, P)
    linear(C, P, lambda c: V.form_factor(q=P.q, couplings=c), "linear in the couplings")


# --- resonance shapes -------------------------------------------------------------------

UT = FF + "._utils"
SHAPE = dict(M=Real(0.3, None, samp=(0.6, 2.0)), W=Real(0, None, samp=(0.01, 0.5)), m1=Real(0.01, 0.3), m2=Real(0.01, 0.3))
above = lambda P: P.m1 + P.m2 < P.M
below = lambda P: P.s < (P.m1 + P.m2) ** 2


@contract("K15", [UT + ":" + f for f in ("hhat", "h", "gamma_p", "breit_wigner_gs", "breit_wigner_pwave", "breit_wigner_fw")], params=SHAPE, requires=above)
def resonance_on_peak(C, P):
    """at the mass of the resonance: its width is the total width, and the real
    part of the Gounaris-Sakurai denominator vanishes"""
    u = C.mod(UT)
    a = (P.M, P.W, P.m1, P.m2)
    s = P.M ** 2
    hr = u.hhat(s, *a)
    C.eq(u.gamma_p(s, *a), P.W, "the running width is the width on the peak")
    C.eq(u.h(s, *a, P.M, hr), 0.0, "no shift of the mass on the peak")
    C.eq(u.breit_wigner_pwave(s, *a) * P.W, 1j * P.M, "p-wave resonance on the peak")
    C.eq(u.breit_wigner_fw(s, P.M, P.W) * P.W, 1j * P.M, "fixed-width resonance on the peak")
    C.eq(u.breit_wigner_gs(s, *a, P.M, P.W, hr) * (P.M * P.W), 1j * (s + P.M), "Gounaris-Sakurai resonance on the peak")


@contract("K15", [UT + ":hhat", UT + ":dhhatds", UT + ":beta"], params=dict(SHAPE, s=Real(0.4, None, samp=(0.5, 4.0))), requires=lambda P: 2 * P.m1 < P.M)
def dispersion_slope(C, P):
    """the slope on the peak, of a resonance whose mass squared is s"""
    u = C.mod(UT)
    m = (P.m1, P.m1)
    r = C.sqrt(P.s)
    d = C.diff(lambda s: u.hhat(s, P.M, P.W, *m), P.s)
    C.eq(d * P.M * u.beta(P.M ** 2, *m) ** 3, u.dhhatds(r, P.W, *m) * r * u.beta(P.s, *m) ** 3, "slope of the dispersive part on the peak")


@contract("K15", [UT + ":" + f for f in ("h", "gamma_p", "breit_wigner_gs", "breit_wigner_pwave", "breit_wigner_fw")], params=dict(SHAPE, ss=Arr(Real(0, None, samp=(0.3, 4.0)), minlen=1), i=Int(0, None, samp=(0, 3)), k=Int(1, None, samp=(1, 4)), Ms=Arr(Real(0.6, None), shape=("k",)), Ws=Arr(Real(0, None), shape=("k",)), j=Int(0, None, samp=(0, 3)), h0=Real(-2, 2), dh=Real(-2, 2), hr=Real(-2, 2)), requires=lambda P: P.i < P.ss.shape[0] and P.j < P.k and (P.m1 + P.m2) ** 2 < P.ss[P.i])
def resonance_tables(C, P):
    u = C.mod(UT)
    n = C.np.ones(P.Ms.shape)
    s, M, W = P.ss[P.i], P.Ms[P.j], P.Ws[P.j]
    m = (P.m1, P.m2)
    C.eq(u.gamma_p(P.ss, P.Ms, P.Ws, *m, reshape=True)[P.i, P.j], u.gamma_p(s, M, W, *m), "width")
    C.eq(u.breit_wigner_fw(P.ss, P.Ms, P.Ws, reshape=True)[P.i, P.j], u.breit_wigner_fw(s, M, W), "fixed width")
    C.eq(u.breit_wigner_pwave(P.ss, P.Ms, P.Ws, *m, reshape=True)[P.i, P.j], u.breit_wigner_pwave(s, M, W, *m), "p-wave")
    C.eq(u.h(P.ss, P.Ms, P.Ws, *m, P.dh * n, P.hr * n, reshape=True)[P.i, P.j], u.h(s, M, W, *m, P.dh, P.hr), "dispersive part")


# --- running of the fine-structure constant -----------------------------------------------

AL = FF + "._alpha"


@contract("K15", [AL + ":real_pi"], params=dict(rs=Arr(Real(0, None, samp=(1e-4, 2.0)), minlen=1), i=Int(0, None, samp=(0, 3))), requires=lambda P: P.i < P.rs.shape[0])
def fermion_loop(C, P):
    """one-loop vacuum polarisation of a fermion with mass squared r in units of the scale"""
    r = P.rs[P.i]
    f = C.mod(AL).real_pi(P.rs)
    C.eq(f.shape[0], P.rs.shape[0], "shape")
    f = f[P.i]
    if r < 1e-3:
        C.eq(f, -1.666666666666667 - C.log(r), "light fermion")
    elif r > 1e6:
        C.eq(f, 0.0, "heavy fermion")
    elif 4 * r > 1:
        b = C.sqrt(4 * r - 1)
        C.eq(f, C.number(1) / 3 - (1 + 2 * r) * (2 - b * C.np.arccos(1 - 1 / (2 * r))), "below threshold")
    else:
        b = C.sqrt(1 - 4 * r)
        C.eq(f, C.number(1) / 3 - (1 + 2 * r) * (2 + b * C.log(C.abs((b - 1) / (b + 1)))), "above threshold")


LOOP = {AL + ":real_pi": lambda orig, r: Fn(1).make_sym("loop", {})(r)}


@contract("K15", [AL + ":alpha_em", AL + ":hadronic"], uses=LOOP, params=dict(ss=Arr(Real(0, None, samp=(1e-8, 200.0)), minlen=1), i=Int(0, None, samp=(0, 3))), requires=lambda P: P.i < P.ss.shape[0])
def running_coupling(C, P):
    m = C.mod(AL)
    s = P.ss[P.i]
    a = m.alpha_em(P.ss)[P.i]
    C.eq(m.alpha_em(s), a, "arrays agree with single scales")
    a0 = 0.0072973525698
    if s < 1e-6:
        C.eq(a, a0, "constant at low scales")
    else:
        x, y, z = (0.0, 0.00835, 1.0) if s < 0.09 else (0.0, 0.00238, 3.927) if s < 9 else (0.00165, 0.00299, 1.0) if s < 1e4 else (0.00221, 0.00293, 1.0)
        p = sum(m.real_pi(C.np.array([k ** 2 / s]))[0] for k in (m.m_e, m.m_mu, m.m_tau, m.m_top)) * a0 / (3 * C.pi) + x + y * C.np.log1p(z * s)
        C.eq(a * (1 - p), a0, "one over one minus the vacuum polarisation")
