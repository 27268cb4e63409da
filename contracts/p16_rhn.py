"""Right-handed neutrino: partial widths, squared amplitudes, histories of assignments, spectra and lines of its decays."""
from vc.api import contract, Real, Int, Arr, Fn, Choice
PROPS = ["K16"]
RH = "hazma.rh_neutrino."
MOD, W, S, CF = RH + "_model:RHNeutrino.", RH + "_widths:", RH + "_spectra:", RH + "_configure:"
L, N = ["e", "mu", "tau"], ["ve", "vm", "vt"]
LMASS = {"e": "electron", "mu": "muon", "tau": "tau"}
HMASS = {"pi0": "neutral_pion", "pi": "charged_pion", "eta": "eta", "k": "charged_kaon", "rho": "rho", "rho0": "rho", "omega": "omega", "phi": "phi"}
MX = Real(0, None, samp=(150.0, 3000.0), special=(400.0, 1000.0, 1500.0))
TH = Real(-1, 1, samp=(1e-3, 0.3))
E = Real(0, None, samp=(1.0, 1000.0))
PAR = dict(mx=MX, theta=TH, flavor=Choice(*L))
# label of a channel, in terms of the generation of the model: 0 its own, 1 and 2 the two others
TWO = {"v a": ("v0", "a"), "v pi0": ("v0", "pi0"), "v eta": ("v0", "eta"), "v rho": ("v0", "rho0"), "v omega": ("v0", "omega"), "v phi": ("v0", "phi"), "l pi": ("l0", "pi"), "l k": ("l0", "k"), "l rho": ("l0", "rho")}
THREE = {"v pi pi": ("v0", "pi", "pi"), "l pi pi0": ("l0", "pi", "pi0")}
THREE.update({"v%d l%d l%d" % t: ("v%d" % t[0], "l%d" % t[1], "l%d" % t[2]) for t in [(0, 0, 0), (0, 1, 1), (0, 2, 2), (1, 0, 1), (1, 1, 0), (2, 0, 2), (2, 2, 0)]})
THREE.update({"v0 v%d v%d" % (g, g): ("v0", "v%d" % g, "v%d" % g) for g in range(3)})
ALL = dict(TWO, **THREE)
VEC = {"rho": 162000.0, "rho0": 162000.0, "omega": 153000.0, "phi": 234000.0}


def generations(flavor):
    g = L.index(flavor)
    return [g] + [j for j in range(3) if j != g]


def particle(flavor, x):
    """name of a particle in the channels' notation"""
    if x[0] in "lv" and x[1:].isdigit():
        return (L if x[0] == "l" else N)[generations(flavor)[int(x[1])]]
    return x


def key(flavor, ch):
    return " ".join("rho" if n == "rho0" else n for n in (particle(flavor, x) for x in ALL[ch]))


def mass(C, flavor, x):
    x = particle(flavor, x)
    n = LMASS.get(x) or HMASS.get(x)
    return getattr(C.mod("hazma.parameters"), n + "_mass") if n else 0.0


class FormFactor:
    """an arbitrary complex function of the invariant mass and the couplings"""

    def __init__(self, C):
        self.re, self.im = C.fn("ff.re", 3), C.fn("ff.im", 3)

    def form_factor(self, *, q, couplings):
        return self.re(q, *couplings) + 1j * self.im(q, *couplings)

    def squared(self, C, s):
        a = (C.sqrt(s), 2 / 3, -1 / 3)
        return self.re(*a) ** 2 + self.im(*a) ** 2


def model(C, P, **new):
    ff = FormFactor(C)
    C.patch("hazma.form_factors.vector.VectorFormFactorPiPi", lambda: ff)
    a = dict(dict(mx=P.mx, theta=P.theta, flavor=P.flavor), **new)
    return C.mod("hazma.rh_neutrino").RHNeutrino(**a), ff


def kallen(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + a * c + b * c)


def rate(C, flavor, ch, M, theta, ff):
    """width into one of two conjugate channels, open"""
    p = C.mod("hazma.parameters")
    u2, GF, pi, sw2 = (C.np.tan(2 * theta) / 2) ** 2, p.GF, C.pi, p.sin_theta_weak ** 2
    m = [mass(C, flavor, x) for x in ALL[ch]]
    G2 = u2 * GF ** 2
    if ch == "v a":
        return 9 * p.alpha_em * G2 * M ** 5 / (256 * pi ** 4)
    if len(m) == 2:
        xl, xh = m[0] / M, m[1] / M
        h = ALL[ch][1]
        lam = C.sqrt(kallen(1, xh ** 2, xl ** 2))
        if h in ("pi0", "eta"):
            return G2 * {"pi0": p.fpi0, "eta": p.feta}[h] ** 2 * M ** 3 * (1 - xh ** 2) ** 2 / (64 * pi)
        if h in ("pi", "k"):
            f, V = {"pi": (p.fpi, p.Vud), "k": (p.fk, p.Vus)}[h]
            return G2 * abs(V) ** 2 * f ** 2 * M ** 3 / (32 * pi) * ((1 - xl ** 2) ** 2 - xh ** 2 * (1 + xl ** 2)) * lam
        if h == "rho":
            return G2 * abs(p.Vud) ** 2 * VEC[h] ** 2 * M ** 3 / (16 * pi * m[1] ** 2) * ((1 - xl ** 2) ** 2 + xh ** 2 * (1 + xl ** 2) - 2 * xh ** 4) * lam
        k = {"rho0": 1 - 2 * sw2, "omega": 4 / 3 * sw2, "phi": 4 / 3 * sw2 - 1}[h]
        return G2 * (k * VEC[h] / m[1]) ** 2 * M ** 3 / (32 * pi) * (1 + 2 * xh ** 2) * (1 - xh ** 2) ** 2
    if ch in ("v pi pi", "l pi pi0"):
        mp, xl2 = p.charged_pion_mass, (m[0] / M) ** 2
        lep = ch[0] == "l"

        def f(s):
            z = s / M ** 2
            lam = C.sqrt(kallen(1.0, z, xl2)) if lep else 1 - z
            poly = (1 - xl2) ** 2 + z * (1 + xl2) - 2 * z ** 2
            return poly * ff.squared(C, s) * lam * (1 - 4 * mp ** 2 / s) ** 1.5
        pre = G2 * M ** 3 / (768 * pi ** 3) * (2 * abs(p.Vud) ** 2 if lep else (1 - 2 * sw2) ** 2)
        return pre * C.integral(f, 4 * mp ** 2, (M - m[0]) ** 2)
    pre = G2 * M ** 5 / (192 * pi ** 3)
    if ch[3] == "v":
        return pre / 4 * (2 if ch == "v0 v0 v0" else 1)
    if ch[1] != "0":
        # the integral is the same for every assignment of the three masses
        own = 1 if ch[4] == "0" else 2
        xl, xd = m[own] / M, m[3 - own] / M

        def f(x):
            return 12 / x * (x - xl ** 2 - xd ** 2) * (1 - x) * C.sqrt(kallen(x, xl ** 2, xd ** 2) * kallen(1, x, 0.0))
        return pre * C.integral(f, (xd + xl) ** 2, 1.0)
    x = m[1] / M
    own = 1 if ch == "v0 l0 l0" else -1
    c1, c2 = (1 + own * 4 * sw2 + 8 * sw2 ** 2) / 4, sw2 * (2 * sw2 + own) / 2
    sx = C.sqrt(1 - 4 * x ** 2)
    num = 1 - 3 * x ** 2 - (1 - x ** 2) * sx
    if num < 1e-10:  # the expansion for light leptons
        lx = 4 * C.np.log(x) + 4 * x ** 2 + 6 * x ** 4
    else:
        lx = C.np.log(num / (x ** 2 * (1 + sx)))
    t1 = (1 - 14 * x ** 2 - 2 * x ** 4 - 12 * x ** 6) * sx + 12 * x ** 4 * (x ** 4 - 1) * lx
    t2 = x ** 2 * (2 + 10 * x ** 2 - 12 * x ** 4) * sx + 6 * x ** 4 * (1 - 2 * x ** 2 + 2 * x ** 4) * lx
    return pre * (c1 * t1 + 4 * c2 * t2)


def threshold(C, flavor, ch):
    if ch == "l pi pi0":
        return mass(C, flavor, "l0") + 2 * mass(C, flavor, "pi")
    return sum(mass(C, flavor, x) for x in ALL[ch])


def charged(ch):
    """the charge-conjugate channel is another one"""
    return ch[0] == "l" or ch in ("v1 l0 l1", "v1 l1 l0", "v2 l0 l2", "v2 l2 l0")


WIDTHS = ["width_" + k for k in ("v_a", "v_pi0", "v_eta", "v_rho", "v_omega", "v_phi", "l_k", "l_pi", "l_rho", "v_pi_pi", "l_pi0_pi", "v_l_l", "v_v_v")]
HELP = ["_width_v_hp", "_width_l_hp", "_width_ell_hv", "_width_v_hv", "_width_l_u_d", "_width_v_f_f", "_width_v_l_l"]


@contract("K16", [W + k for k in WIDTHS + HELP] + [MOD + "decay_width"], params=dict(PAR, ch=Choice(*ALL)))
def rhn_partial_widths(C, P):
    m, ff = model(C, P)
    k = key(P.flavor, P.ch)
    if P.mx < threshold(C, P.flavor, P.ch):
        want = 0.0
    else:
        want = rate(C, P.flavor, P.ch, P.mx, P.theta, ff) * (2 if charged(P.ch) else 1)
    C.eq(m.decay_width([k])[k], want, "partial width, both charges, zero below threshold")
    C.eq(m.decay_width(k)[k], want, "partial width of a single channel")


def some_width(name):
    def w(orig, model, **k):
        tag = [name] + ["%s=%d" % (a, int(v)) for a, v in sorted(k.items()) if a.startswith("gen")] + ["N=%d" % int(model.gen)]
        return Fn(2, 0, nonneg=True).make_sym(".".join(tag), {})(model.mx, model.theta)
    return w


@contract("K16", [MOD + k for k in ("__init__", "mx", "theta", "flavor", "gen", "ml", "list_decay_final_states", "_decay_width", "_decay_widths", "decay_width", "decay_widths")] + [CF + "configure", RH + "_utils:three_lepton_fs_generations"],
          uses={W + k: some_width(k) for k in WIDTHS}, params=dict(PAR, which=Choice("mx", "theta", "flavor"), other=MX, new=TH, fl=Choice(*L)),
          requires=lambda P: P.which == "flavor" or P.fl == "e")
def rhn_histories(C, P):
    """every assignment leaves the model of the new parameters; the total width is the sum of the partial widths"""
    m, _ = model(C, P)
    v = {"mx": P.other, "theta": P.new, "flavor": P.fl}[P.which]
    setattr(m, P.which, v)
    check_model(C, m, P, **{P.which: v})
    setattr(m, P.which, getattr(P, P.which))
    check_model(C, m, P)


def check_model(C, m, P, **new):
    n, _ = model(C, P, **new)
    flavor = new.get("flavor", P.flavor)
    keys = {key(flavor, ch): ch for ch in ALL}
    for k in ("mx", "theta", "flavor"):
        C.eq(getattr(m, k), new.get(k, getattr(P, k)), "parameters")
    C.eq(m.ml, mass(C, flavor, "l0"), "mass of the lepton of its generation")
    C.eq(int(m.gen), L.index(flavor), "generation")
    C.true(set(m.list_decay_final_states()) == set(keys), "final states")
    w, fresh = m.decay_widths(), n.decay_widths()
    C.true(set(w) == set(keys) | {"total"}, "channels of the widths")
    for k in keys:
        C.eq(w[k], fresh[k], "partial width")
        C.eq(m.decay_width([k])[k], w[k], "partial width, alone")
    C.eq(w["total"], sum(w[k] for k in keys), "total width")
    for kind in KINDS:
        C.true(set(funcs(m, kind)) == set(keys), "channels of the spectra")
    if flavor == "e":  # the others have no positron lines
        a, b = m._positron_line_energies(), n._positron_line_energies()
        C.true(set(a) == set(b), "positron lines")
        for k in b:
            C.eq(a[k], b[k], "positron lines")
    for lines in ("_gamma_ray_line_energies", "_neutrino_line_energies"):
        a, b = getattr(m, lines)(), getattr(n, lines)()
        C.true(set(a) == set(b), "lines")
    C.raises(KeyError, lambda: m.decay_width(["x x"]), "unknown final state")
    C.raises(ValueError, lambda: setattr(m, "flavor", "nu"), "unknown flavor")
    C.raises(ValueError, lambda: model(C, P, flavor="nu"), "unknown flavor")


KINDS = ["photon", "positron", "neutrino"]


def funcs(m, kind):
    return {"photon": m._spectrum_funcs, "positron": m._positron_spectrum_funcs, "neutrino": m._neutrino_spectrum_funcs}[kind]()


# --- squared amplitudes -----------------------------------------------------------

def amplitude(C, P, ch, inv, ff):
    """inv(a, b): invariant mass squared of two particles of the channel, counted from zero"""
    p = C.mod("hazma.parameters")
    M, fl = P.mx, P.flavor
    m = [mass(C, fl, x) for x in ALL[ch]]
    G2, sw2 = (C.np.tan(2 * P.theta) / 2) ** 2 * p.GF ** 2, p.sin_theta_weak ** 2
    if ch in ("v pi pi", "l pi pi0"):
        mp, s = p.charged_pion_mass, inv(1, 2)
        t = inv(0, 2)
        u = M ** 2 + m[0] ** 2 + 2 * mp ** 2 - s - t
        c = 2 * abs(p.Vud) ** 2 if ch[0] == "l" else (1 - 2 * sw2) ** 2
        return c * G2 * ((u - t) ** 2 + (s - 4 * mp ** 2) * (M ** 2 + m[0] ** 2 - s)) * ff.squared(C, s)
    if ch[3] == "v":
        s, t, u = inv(1, 2), inv(0, 2), inv(0, 1)
        return 16 * G2 * (2 if ch == "v0 v0 v0" else 1) * (s * t + t * u + u * s)
    if ch[1] != "0":
        a = 1 if ch[4] == "0" else 2  # the lepton that replaces the heavy neutrino
        b = 3 - a
        # four times (N . other lepton) (own lepton . neutrino)
        return 16 * G2 * (M ** 2 + m[b] ** 2 - inv(0, a)) * (inv(0, a) - m[a] ** 2)
    gr, gl = sw2, sw2 - 0.5 + (1 if ch == "v0 l0 l0" else 0)
    m2, s, t, u = m[1] ** 2, inv(1, 2), inv(0, 2), inv(0, 1)
    return 8 * G2 * ((gl ** 2 + gr ** 2) * ((M ** 2 + m2 - u) * (u - m2) + (M ** 2 + m2 - t) * (t - m2)) + 4 * gl * gr * m2 * (M ** 2 - s))


class Asked:
    """stands for a spectrum or a phase space: an arbitrary function, and what it was asked"""

    def __init__(self, C):
        self.C, self.calls, self.f = C, [], {}
        for kind in KINDS:
            for j in range(3):
                self.f[kind, j] = C.fn("%s%d" % (kind, j), 1, 0)
            C.patch("hazma.spectra.dnde_" + kind, self.spectrum(kind))

    def spectrum(self, kind):
        def dnde(*a, **k):
            es = a[0] if a else k[kind + "_energies"]
            rest = dict(zip(("cme", "final_states"), a[1:]), **k)
            self.calls.append((kind, rest))
            if kind == "neutrino":
                return self.C.np.array([self.f[kind, j](es) for j in range(3)])
            return self.f[kind, 0](es)
        return dnde


def same_amplitude(C, P, ch, names, f, ff, want_names):
    """f(s, t) is the squared amplitude of the channel, its particles in the order of names"""
    s, t = P.s, P.t
    left, role = list(range(3)), []
    for n in names:
        j = next((j for j in left if want_names[j] == n), None)
        C.true(j is not None, "the particles of the channel")
        left.remove(j)
        role.append(j)
    ms = [mass(C, P.flavor, ALL[ch][j]) for j in role]
    if ch == "l pi pi0":
        # the amplitude neglects the difference of the masses of the pions
        ms = [mass(C, P.flavor, "pi" if n == "pi0" else n) if n in ("pi", "pi0") else x for n, x in zip(names, ms)]
    u = P.mx ** 2 + sum(x ** 2 for x in ms) - s - t
    byrole = {frozenset((role[1], role[2])): s, frozenset((role[0], role[2])): t, frozenset((role[0], role[1])): u}
    C.eq(f(s, t), amplitude(C, P, ch, lambda a, b: byrole[frozenset((a, b))], ff), "squared amplitude")


ST = dict(s=Real(0, None, samp=(1e3, 1e6)), t=Real(0, None, samp=(1e3, 1e6)))
AMP = [W + k for k in ("msqrd_l_pi0_pi", "msqrd_v_pi_pi", "msqrd_v_v_v", "_msqrd_l_u_d", "_msqrd_v_f_f", "_msqrd_v_l_l", "_make_msqrd_and_masses_v_l_l")]
ES = dict(es=Arr(E, minlen=1), i=Int(0, None, samp=(0, 3)))
INDEX = lambda P: P.i < P.es.shape[0]


def value(C, P, got, kind, want):
    """want(j): value of the spectrum, of flavor j, at energy P.i"""
    if kind == "neutrino":
        C.true(len(got.shape) == 2, "three flavors and the energies")
        C.eq(got.shape[0], 3, "three flavors")
        C.eq(got.shape[1], P.es.shape[0], "shape")
        for j in range(3):
            C.eq(got[j][P.i], want(j), "spectrum of a flavor of neutrino")
    else:
        C.eq(got.shape[0], P.es.shape[0], "shape")
        C.eq(got[P.i], want(0), "spectrum")


@contract("K16", [S + "dnde_" + k for k in ("v_pi0", "v_eta", "v_rho", "v_omega", "v_phi", "l_pi", "l_k", "l_rho")] + [S + "_dnde_two_body"] + [MOD + k for k in ("_spectrum_funcs", "_positron_spectrum_funcs", "_neutrino_spectrum_funcs")],
          params=dict(PAR, ch=Choice(*TWO), kind=Choice(*KINDS), e=E, **ES), requires=INDEX)
def rhn_two_body_spectra(C, P):
    """the spectrum of the channel's own particles, once, at the mass of the neutrino; zero below threshold"""
    A = Asked(C)
    m, _ = model(C, P)
    f = funcs(m, P.kind)[key(P.flavor, P.ch)]
    one = f(P.e)
    single = lambda want: [C.eq(one[j] if P.kind == "neutrino" else one, want(j), "spectrum at a single energy") for j in range(3 if P.kind == "neutrino" else 1)]
    del A.calls[:]
    got = f(P.es)
    if P.ch == "v a" or P.mx < threshold(C, P.flavor, P.ch):
        C.eq(len(A.calls), 0, "nothing decays")
        single(lambda j: 0.0)
        value(C, P, got, P.kind, lambda j: 0.0)
        return
    single(lambda j: A.f[P.kind, j](P.e))
    C.eq(len(A.calls), 1, "one spectrum")
    kind, k = A.calls[0]
    C.true(kind == P.kind, "the spectrum asked for")
    C.eq(k["cme"], P.mx, "energy")
    C.true(sorted(k["final_states"]) == sorted(particle(P.flavor, x) for x in ALL[P.ch]), "final state")
    C.true(k.get("include_fsr", True), "with radiation")
    value(C, P, got, P.kind, lambda j: A.f[P.kind, j](P.es[P.i]))


@contract("K16", [S + "dnde_" + k for k in ("v_pi_pi", "l_pi0_pi", "v_l_l", "v_v_v")] + [S + "_dnde_three_body"] + AMP, params=dict(PAR, ch=Choice(*THREE), kind=Choice(*KINDS), **dict(ST, **ES)), requires=INDEX)
def rhn_three_body_spectra(C, P):
    """the spectrum of the channel's own particles with the squared amplitude of the decay; zero below threshold"""
    A = Asked(C)
    m, ff = model(C, P)
    got = funcs(m, P.kind)[key(P.flavor, P.ch)](P.es, nbins=7, three_body_integrator="trapz")
    names = [particle(P.flavor, x) for x in ALL[P.ch]]
    if P.mx < sum(mass(C, P.flavor, x) for x in ALL[P.ch]):
        C.eq(len(A.calls), 0, "nothing decays")
        value(C, P, got, P.kind, lambda j: 0.0)
        return
    C.eq(len(A.calls), 1, "one spectrum")
    kind, k = A.calls[0]
    C.true(kind == P.kind, "the spectrum asked for")
    C.eq(k["cme"], P.mx, "energy")
    C.true(k.get("include_fsr", True), "with radiation")
    C.true(k["nbins"] == 7 and k["three_body_integrator"] == "trapz" and k["msqrd_signature"] == "st", "options")
    same_amplitude(C, P, P.ch, list(k["final_states"]), k["msqrd"], ff, names)
    value(C, P, got, P.kind, lambda j: A.f[P.kind, j](P.es[P.i]))


class Space:
    def __init__(self, cme, masses, *, msqrd):
        self.cme, self.masses, self.msqrd = cme, masses, msqrd

    def energy_distributions(self, nbins, method="quad"):
        return ("energy", self, nbins, method)

    def invariant_mass_distributions(self, nbins, method="quad"):
        return ("mass", self, nbins, method)


DIST = {"l pi pi0": "l_pi0_pi", "v pi pi": "v_pi_pi"}


@contract("K16", [W + k + n for k in ("energy_distributions_", "invariant_mass_distributions_") for n in ("l_pi0_pi", "v_pi_pi", "v_l_l", "v_v_v")] + AMP,
          params=dict(PAR, ch=Choice(*THREE), what=Choice("energy", "mass"), **ST))
def rhn_distributions(C, P):
    """distributions of the channel's own particles, in order, from the squared amplitude of the decay"""
    C.patch("hazma.phase_space.ThreeBody", Space)
    m, ff = model(C, P)
    w, G = C.mod(RH + "_widths"), C.mod(RH + "_proto").Generation
    gs = [G(g) for g in generations(P.flavor)]
    name = DIST.get(P.ch) or ("v_v_v" if P.ch[3] == "v" else "v_l_l")
    f = getattr(w, {"energy": "energy_distributions_", "mass": "invariant_mass_distributions_"}[P.what] + name)
    if name == "v_l_l":
        a = [gs[int(c)] for c in (P.ch[1], P.ch[4], P.ch[7])]
    elif name == "v_v_v":
        a = [gs[int(P.ch[4])]]
    else:
        a = [ff]
    what, tb, n, method = f(m, *a, nbins=9)
    C.true(what == P.what and n == 9 and method == "quad", "the distribution asked for")
    C.eq(tb.cme, P.mx, "energy")
    names = [particle(P.flavor, x) for x in ALL[P.ch]]
    ms = [mass(C, P.flavor, "pi" if x == "pi0" else x) for x in ALL[P.ch]]
    for a, b in zip(tb.masses, ms):
        C.eq(a, b, "masses")
    same_amplitude(C, P, P.ch, names, tb.msqrd, ff, names)


@contract("K16", [W + k for k in ("msqrd_l_pi0_pi", "msqrd_v_pi_pi", "width_l_pi0_pi", "width_v_pi_pi")], params=dict(PAR, ch=Choice("v pi pi", "l pi pi0"), s=Real(0, None, samp=(8e4, 4e5))))
def rhn_pion_pairs(C, P):
    """the integral of the squared amplitude over the angle of the pions (exact by Simpson's rule) is the integrand of the width"""
    m, ff = model(C, P)
    w = C.mod(RH + "_widths")
    p = C.mod("hazma.parameters")
    ml, mp, M = mass(C, P.flavor, ALL[P.ch][0]), p.charged_pion_mass, P.mx
    if P.s <= 4 * mp ** 2 or M <= ml + C.sqrt(P.s):
        return
    h = C.sqrt(kallen(M ** 2, ml ** 2, P.s) * (P.s - 4 * mp ** 2) / P.s) / 2
    f = lambda t: getattr(w, {"v pi pi": "msqrd_v_pi_pi", "l pi pi0": "msqrd_l_pi0_pi"}[P.ch])(P.s, t, m, ff)
    t0 = (M ** 2 + ml ** 2 + 2 * mp ** 2 - P.s) / 2
    u2 = (C.np.tan(2 * P.theta) / 2) ** 2
    c = 2 * abs(p.Vud) ** 2 if P.ch[0] == "l" else (1 - 2 * p.sin_theta_weak ** 2) ** 2
    poly = (M ** 2 - ml ** 2) ** 2 + P.s * (M ** 2 + ml ** 2) - 2 * P.s ** 2
    C.eq(3 * P.s * (f(t0 - h) + 4 * f(t0) + f(t0 + h)) / 6, c * u2 * p.GF ** 2 * ff.squared(C, P.s) * poly * (P.s - 4 * mp ** 2), "average over the angle")


# --- lines --------------------------------------------------------------------------

@contract("K16", [MOD + k for k in ("_gamma_ray_line_energies", "_positron_line_energies", "_neutrino_line_energies")], params=PAR)
def rhn_lines(C, P):
    """monochromatic particles of the model's own two-body channels"""
    m, _ = model(C, P)
    fl, M = P.flavor, P.mx
    other = {key(fl, c): c for c in TWO}
    got = {"photon": m._gamma_ray_line_energies(), "positron": m._positron_line_energies(), "neutrino": m._neutrino_line_energies()}
    need = {"photon": ["v a"], "positron": ["l pi", "l k"] if fl == "e" else [], "neutrino": ["v a", "v pi0", "v eta"]}
    for kind in KINDS:
        for k in got[kind]:
            C.true(k in other, "a line of one of the channels")
        for ch in need[kind]:
            if M > threshold(C, fl, ch):
                C.true(key(fl, ch) in got[kind], "a line")
        for k, e in got[kind].items():
            a, b = (mass(C, fl, x) for x in TWO[other[k]])
            C.true({"photon": "a" in TWO[other[k]], "positron": k.startswith("e "), "neutrino": "v0" in TWO[other[k]]}[kind], "a line of a particle of the channel")
            own, rec = (b, a) if kind == "photon" else (a, b)
            if M > a + b:
                C.eq(e, (M ** 2 + own ** 2 - rec ** 2) / (2 * M), "energy of the line")
