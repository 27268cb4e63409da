"""GeV vector mediator: couplings, cached widths, cross sections, spectra of its decay channels."""
from vc.api import contract, Real, Int, Arr, Choice
PROPS = ["K21"]
GEV = "hazma.vector_mediator._gev"
MOD, CS = GEV + ".model:", GEV + ".cross_sections:"
SPEC = {"photon": GEV + ".spectra", "positron": GEV + ".positron", "neutrino": GEV + ".neutrino"}
VM = MOD + "VectorMediatorGeV."
M = Real(0, None, samp=(100.0, 3000.0))
G = Real(-3, 3)
CM = Real(0, None, samp=(300.0, 6000.0))
E = Real(0, None, samp=(1.0, 1500.0))
GS = ["gvuu", "gvdd", "gvss", "gvee", "gvmumu", "gvveve", "gvvmvm", "gvvtvt"]
NAMES = ["mx", "mv", "gvxx"] + GS
PAR = dict(mx=M, mv=M, **{k: G for k in NAMES[2:]})
PC, P0, KC, K0, ET, EP, OM, PH = ("charged_pion", "neutral_pion", "charged_kaon", "neutral_kaon", "eta", "eta_prime", "omega", "phi")
# hadronic channel: form factor, particles in the order of the form factor (K15)
HADRONS = {
    "pi pi": ("PiPi", (PC, PC)), "k0 k0": ("K0K0", (K0, K0)), "k k": ("KK", (KC, KC)),
    "pi0 gamma": ("Pi0Gamma", (P0, None)), "eta gamma": ("EtaGamma", (ET, None)),
    "pi0 phi": ("Pi0Phi", (P0, PH)), "eta phi": ("EtaPhi", (ET, PH)), "eta omega": ("EtaOmega", (ET, OM)),
    "pi pi pi0": ("PiPiPi0", (P0, PC, PC)), "pi pi eta": ("PiPiEta", (ET, PC, PC)), "pi pi etap": ("PiPiEtaPrime", (EP, PC, PC)),
    "pi pi omega": ("PiPiOmega", (OM, PC, PC)), "pi0 pi0 omega": ("Pi0Pi0Omega", (OM, P0, P0)),
    "pi0 k0 k0": ("Pi0K0K0", (K0, K0, P0)), "pi0 k k": ("Pi0KpKm", (KC, KC, P0)), "pi k k0": ("PiKK0", (K0, KC, PC)),
    "pi pi pi pi": ("PiPiPiPi", (PC, PC, PC, PC)), "pi pi pi0 pi0": ("PiPiPi0Pi0", (PC, PC, P0, P0)),
}
MULTI = [k for k, v in HADRONS.items() if len(v[1]) > 2]
FOUR = ["pi pi pi pi", "pi pi pi0 pi0"]
LEPTONS = ["e e", "mu mu", "ve ve", "vm vm", "vt vt"]
CHANNELS = set(LEPTONS) | set(HADRONS) | {"pi0 pi0 gamma"}
BR_OMEGA = 0.0834  # omega -> pi0 gamma
FFS = [v[0] for v in HADRONS.values()] + ["Pi0Pi0", "Pi0Omega"]
ident = lambda ch: ch.replace(" ", "_")


class FormFactor:
    """the form factors are arbitrary: their widths and cross sections are functions of what they are given"""

    def __init__(self, C, name):
        self.C, self.name = C, name
        self.w, self.cs = C.fn("width." + name, 4, 0), C.fn("sigma." + name, 8, 0)

    def width(self, mv, couplings, npts=None):
        return self.w(mv, couplings.gvuu, couplings.gvdd, couplings.gvss)

    def cross_section(self, q, mx, mv, gvxx, wv, couplings, npts=None):
        return self.cs(q, mx, mv, gvxx, wv, couplings.gvuu, couplings.gvdd, couplings.gvss)


def form_factors(C):
    f = {n: FormFactor(C, n) for n in FFS}
    for n in FFS:
        C.patch("hazma.form_factors.vector.VectorFormFactor" + n, lambda n=n: f[n])
    return f


def model(C, P, **new):
    return C.mod(GEV + ".model").VectorMediatorGeV(**dict({k: getattr(P, k) for k in NAMES}, **new))


def fermion(C, mv, g, mf):
    """width of a vector of mass mv into a Dirac pair, zero below threshold"""
    if mv > 2 * mf:
        return g ** 2 * (mv ** 2 + 2 * mf ** 2) * C.sqrt(mv ** 2 - 4 * mf ** 2) / (12 * C.pi * mv ** 2)
    return 0.0


def thresholds(C):
    p = C.mod("hazma.parameters")
    return {ch: sum(getattr(p, m + "_mass") for m in ms if m) for ch, (_, ms) in HADRONS.items()}


def widths(C, f, v):
    p = C.mod("hazma.parameters")
    mv = v["mv"]
    w = {"x x": fermion(C, mv, v["gvxx"], v["mx"]), "e e": fermion(C, mv, v["gvee"], p.electron_mass), "mu mu": fermion(C, mv, v["gvmumu"], p.muon_mass)}
    for n, k in (("ve ve", "gvveve"), ("vm vm", "gvvmvm"), ("vt vt", "gvvtvt")):
        w[n] = v[k] ** 2 * mv / (24 * C.pi)  # one chirality
    a = (mv, v["gvuu"], v["gvdd"], v["gvss"])
    for ch, (n, ms) in HADRONS.items():
        w[ch] = f[n].w(*a)
        if ch in FOUR and mv < thresholds(C)[ch]:
            w[ch] = 0.0
    w["pi0 pi0 gamma"] = BR_OMEGA * f["Pi0Omega"].w(*a)
    return w


@contract("K21", [VM + k for k in ["__init__", "partial_widths", "width_v"] + ["width_v_to_" + ident(k) for k in sorted(CHANNELS) + ["x x", "pi0 pi0"]]], params=PAR)
def gev_widths(C, P):
    f = form_factors(C)
    m = model(C, P)
    w = widths(C, f, {k: getattr(P, k) for k in NAMES})
    got = m.partial_widths()
    C.true(set(got) == set(w), "the channels")
    for k in w:
        C.eq(got[k], w[k], "partial width")
        C.eq(getattr(m, "width_v_to_" + ident(k))(), w[k], "partial width, alone")
    C.eq(m.width_v(), sum(got.values()), "total width")
    C.eq(m.width_v_to_pi0_pi0(), f["Pi0Pi0"].w(P.mv, P.gvuu, P.gvdd, P.gvss), "two neutral pions")


def same(C, m, n, what):
    a, b = m.partial_widths(), n.partial_widths()
    C.true(set(a) == set(b), "the channels")
    for k in b:
        C.eq(a[k], b[k], what + ": partial width")
        C.eq(getattr(m, "width_v_to_" + ident(k))(), b[k], what + ": partial width, alone")
    C.eq(m.width_v_to_pi0_pi0(), n.width_v_to_pi0_pi0(), what + ": two neutral pions")
    C.eq(m.width_v(), n.width_v(), what + ": total width")
    for k in NAMES:
        C.eq(getattr(m, k), getattr(n, k), what + ": parameters")


@contract("K21", [VM + k for k in ["_invalidate_width_cache"] + NAMES], params=dict(PAR, which=Choice(*NAMES), new=Real(0, 3, samp=(0.5, 3.0)), other=M))
def gev_assignments(C, P):
    """widths are those of the present parameters, whatever was evaluated and assigned before"""
    form_factors(C)
    m = model(C, P)
    for k in NAMES:
        C.eq(getattr(m, k), getattr(P, k), "parameters")
    m.partial_widths(), m.width_v_to_pi0_pi0()
    v = P.new if P.which[0] == "g" else P.other
    setattr(m, P.which, v)
    same(C, m, model(C, P, **{P.which: v}), "an assignment leaves the model of the new parameters")
    setattr(m, P.which, getattr(P, P.which))
    same(C, m, model(C, P), "an assignment can be undone")


def mixed(C, eps):
    q = eps * C.sqrt(4 * C.pi * C.mod("hazma.parameters").alpha_em)
    return dict(gvuu=-2 * q / 3, gvdd=q / 3, gvss=q / 3, gvee=q, gvmumu=q, gvveve=0.0, gvvmvm=0.0, gvvtvt=0.0)


def b_minus_l(C, g):
    return dict(gvuu=g / 3, gvdd=g / 3, gvss=g / 3, **{k: -g for k in GS[3:]})


@contract("K21", [MOD + c + "." + k for c, ks in (("KineticMixingGeV", ["__init__", "eps"] + GS), ("BLGeV", ["__init__", "g", "_update_charges"] + GS)) for k in ks], params=dict(mx=M, mv=M, gvxx=G, c=G, cls=Choice("KineticMixingGeV", "BLGeV"), which=Choice("mx", "mv", "gvxx", "c"), new=Real(0, 3, samp=(0.5, 3.0)), other=M))
def gev_model_couplings(C, P):
    form_factors(C)
    mod = C.mod(GEV + ".model")
    name, charges = {"KineticMixingGeV": ("eps", mixed), "BLGeV": ("g", b_minus_l)}[P.cls]
    a = {k: getattr(P, k) for k in ("mx", "mv", "gvxx")}
    m = getattr(mod, P.cls)(**a, **{name: P.c})
    C.eq(getattr(m, name), P.c, "the coupling")
    same(C, m, mod.VectorMediatorGeV(**a, **charges(C, P.c)), "the couplings of the model")
    c = P.c
    if P.which == "c":
        c = P.new
        setattr(m, name, c)
    else:
        a[P.which] = P.new if P.which[0] == "g" else P.other
        setattr(m, P.which, a[P.which])
    C.eq(getattr(m, name), c, "the coupling")
    same(C, m, mod.VectorMediatorGeV(**a, **charges(C, c)), "the couplings of the model after an assignment")
    for k in GS:
        C.raises(AttributeError, lambda k=k: setattr(m, k, 1.0), "derived couplings cannot be assigned")


# --- cross sections ---------------------------------------------------------------------------

@contract("K21", [CS + "sigma_xx_to_" + ident(k) for k in HADRONS] + [CS + "annihilation_cross_section_funcs", CS + "_sigma_xx_to_call_wrapper", VM + "list_annihilation_final_states"], params=dict(PAR, e=CM))
def gev_hadronic_cross_sections(C, P):
    """those of the channel's own form factor, at the present parameters and total width"""
    f = form_factors(C)
    m = model(C, P)
    s = m.annihilation_cross_section_funcs()
    C.true(set(s) == CHANNELS | {"v v"}, "the channels")
    C.true(set(m.list_annihilation_final_states()) == CHANNELS, "the channels of the standard model")
    for ch, (n, _) in HADRONS.items():
        want = f[n].cs(P.e, P.mx, P.mv, P.gvxx, m.width_v(), P.gvuu, P.gvdd, P.gvss)
        C.eq(s[ch](P.e), want, "hadronic cross section")
        C.eq(getattr(m, "sigma_xx_to_" + ident(ch))(P.e), want, "hadronic cross section, alone")


ANY_WIDTH = dict(mx=M, mv=M, gvxx=G, g=G, w=Real(0, None, samp=(1.0, 300.0)), i=Int(0, None, samp=(0, 3)), es=Arr(CM, minlen=1))


def given_width(C, P, **g):
    form_factors(C)
    m = C.mod(GEV + ".model").VectorMediatorGeV(P.mx, P.mv, P.gvxx, **dict({k: 1.0 for k in GS}, **g))
    m.width_v = lambda: P.w
    return m


def resonance(C, P, Q, width):
    """annihilation through the mediator into a state the off-shell mediator decays to with this width"""
    s = Q ** 2
    return P.gvxx ** 2 * (s + 2 * P.mx ** 2) * width / (C.sqrt(1 - 4 * P.mx ** 2 / s) * Q * ((s - P.mv ** 2) ** 2 + P.mv ** 2 * P.w ** 2))


@contract("K21", [CS + "sigma_xx_to_" + k for k in ("e_e", "mu_mu", "ve_ve", "vm_vm", "vt_vt")] + [CS + "__sigma_xx_to_f_f"], params=dict(ANY_WIDTH, f=Choice("ee", "mumu", "veve", "vmvm", "vtvt")), requires=lambda P: P.i < P.es.shape[0])
def gev_lepton_cross_sections(C, P):
    p = C.mod("hazma.parameters")
    m = given_width(C, P, **{"gv" + P.f: P.g})
    mf = {"ee": p.electron_mass, "mumu": p.muon_mass}.get(P.f, 0.0)
    sig = getattr(m, "sigma_xx_to_%s_%s" % (P.f[:len(P.f) // 2], P.f[len(P.f) // 2:]))
    Q = P.es[P.i]
    got = sig(P.es)[P.i]
    C.eq(sig(Q), got, "arrays agree with single energies")
    if Q > 2 * P.mx and Q > 2 * mf:
        C.eq(got, resonance(C, P, Q, fermion(C, Q, P.g, mf) * (1 if mf else 0.5)), "annihilation into leptons")
    else:
        C.eq(got, 0.0, "zero below threshold")


@contract("K21", [CS + "sigma_xx_to_pi0_pi0_gamma", CS + "__sigma_from_width_fn", CS + "__width_to_cs"], params=ANY_WIDTH, requires=lambda P: P.i < P.es.shape[0])
def gev_pi0_pi0_gamma(C, P):
    p = C.mod("hazma.parameters")
    f = form_factors(C)
    m = given_width(C, P)
    m._ff_pi0_omega = f["Pi0Omega"]
    Q = P.es[P.i]
    got = m.sigma_xx_to_pi0_pi0_gamma(P.es)[P.i]
    C.eq(m.sigma_xx_to_pi0_pi0_gamma(Q), got, "arrays agree with single energies")
    if Q > 2 * P.mx and Q > 2 * p.neutral_pion_mass:
        C.eq(got, resonance(C, P, Q, BR_OMEGA * f["Pi0Omega"].w(Q, 1.0, 1.0, 1.0)), "annihilation into a pion and an omega that decays to a pion and a photon")
    else:
        C.eq(got, 0.0, "zero below threshold")


@contract("K21", [CS + "sigma_xx_to_v_v"], params=dict(ANY_WIDTH), requires=lambda P: P.i < P.es.shape[0])
def gev_mediator_pairs(C, P):
    m = given_width(C, P)
    Q = P.es[P.i]
    got = m.sigma_xx_to_v_v(P.es)[P.i]
    C.eq(m.sigma_xx_to_v_v(Q), got, "arrays agree with single energies")
    if Q > 2 * P.mx and Q > 2 * P.mv:
        v, x = (P.mv / Q) ** 2, (P.mx / Q) ** 2
        bb = C.sqrt(1 - 4 * x) * C.sqrt(1 - 4 * v)
        L = C.np.arctanh(bb / (1 - 2 * v))
        amp = 2 * (1 + 4 * v ** 2 + 4 * x - 8 * v * x - 8 * x ** 2) * L / ((1 - 2 * v) * bb) - (2 * v ** 2 + x + 4 * x ** 2) / (v ** 2 + x - 4 * v * x)
        C.eq(got, P.gvxx ** 4 * C.sqrt(1 - 4 * v) * amp / (8 * C.pi * Q ** 2 * C.sqrt(1 - 4 * x)), "two identical mediators")
    else:
        C.eq(got, 0.0, "zero below threshold")


# --- spectra ------------------------------------------------------------------------------------

KINDS = ("photon", "positron", "neutrino")
SPECTRA = ["muon", "charged_pion", "neutral_pion", "charged_kaon", "long_kaon", "short_kaon", "eta", "eta_prime", "omega", "phi"]
FLAVORS = ("e", "mu", "tau")
FSR_PAIRS = {"pi pi pi0": [((1, 2), 2)], "pi pi pi0 pi0": [((0, 1), 2)], "pi pi pi pi": [(k, 1) for k in ((0, 1), (1, 2), (2, 3), (0, 3))]}
PAIRS = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]


def decays(C, kind, flavor):
    """arbitrary decay spectra, of a particle at rest energy e"""
    zero = lambda es, e: 0.0
    if kind != "neutrino":
        fs = {n: C.fn(kind + "." + n, 2, 0) for n in SPECTRA if (kind, n) != ("positron", "neutral_pion")}
        for n, f in fs.items():
            C.patch("hazma.spectra.dnde_%s_%s" % (kind, n), f)
        return dict({"neutral_pion": zero}, **fs)
    out = {"neutral_pion": zero}
    for n in SPECTRA:
        if n != "neutral_pion":
            by = {k: C.fn("neutrino.%s.%s" % (n, k), 2, 0) for k in FLAVORS}
            C.patch("hazma.spectra.dnde_neutrino_" + n, lambda es, e, flavor, by=by: by[flavor](es, e))
            out[n] = by[flavor]
    return out


class Dist:
    def __init__(self, bins, probs):
        self.bin_centers, self.probabilities = bins, probs


def radiation(C):
    out = {}
    for n in ("fermion", "scalar"):
        f = out[n] = C.fn("fsr." + n, 3, 0)
        C.patch(SPEC["photon"] + ".dnde_photon_ap_" + n, lambda es, s, m, charge=-1.0, f=f: charge ** 2 * f(es, s, m))
    return out


def channel_spectrum(m, kind, flavor, ch, es, Q):
    if kind == "photon":
        return m._spectrum_funcs()[ch](es, Q)
    if kind == "positron":
        return m._positron_spectrum_funcs()[ch](es, Q)
    return m._neutrino_spectrum_funcs()[ch](es, Q, flavor=flavor)


KF = dict(kind=Choice(*KINDS), flavor=Choice(*FLAVORS))
HALF = lambda P: P.i < P.es.shape[0] and (P.kind == "neutrino" or P.flavor == "e")
ES = dict(es=Arr(E, minlen=1), i=Int(0, None, samp=(0, 3)), Q=CM)


def fixed_model(C):
    form_factors(C)
    return C.mod(GEV + ".model").VectorMediatorGeV(100.0, 1000.0, *[1.0] * 9)


def funcs(ks):
    return [SPEC[kind] + ":dnde_%s_%s" % (kind, ident(k)) for kind in KINDS for k in ks] + [SPEC[kind] + ":dnde_%s_spectrum_fns" % kind for kind in KINDS]


TWO = ["e e", "mu mu", "ve ve", "vm vm", "vt vt"] + [k for k in HADRONS if k not in MULTI]


@contract("K21", funcs([k for k in TWO if k[0] != "v"]) + [VM + k for k in ("_spectrum_funcs", "_positron_spectrum_funcs", "_neutrino_spectrum_funcs")], params=dict(KF, ch=Choice(*TWO), **ES), requires=HALF)
def gev_two_body_spectra(C, P):
    """the decays of both particles at the energies of two-body kinematics, and their radiation"""
    p = C.mod("hazma.parameters")
    f, rad = decays(C, P.kind, P.flavor), radiation(C)
    m = fixed_model(C)
    got = channel_spectrum(m, P.kind, P.flavor, P.ch, P.es, P.Q)
    C.eq(got.shape[0], P.es.shape[0], "shape")
    e, Q = P.es[P.i], P.Q
    if P.ch[0] == "v":
        C.eq(got[P.i], 0.0, "neutrinos have no continuum")
        return
    a, b = {"e e": ("electron",) * 2, "mu mu": ("muon",) * 2}.get(P.ch) or HADRONS[P.ch][1]
    mass = lambda n: getattr(p, n + "_mass") if n else 0.0
    ma, mb = mass(a), mass(b)
    if Q < ma + mb:
        C.eq(got[P.i], 0.0, "zero below threshold")
        return
    ea, eb = (Q ** 2 + ma ** 2 - mb ** 2) / (2 * Q), (Q ** 2 - ma ** 2 + mb ** 2) / (2 * Q)
    if a == K0:
        want = f["long_kaon"](e, Q / 2) + f["short_kaon"](e, Q / 2)
    else:
        want = sum(f[n](e, en) for n, en in ((a, ea), (b, eb)) if n in f)
    if P.kind == "photon" and P.ch in ("e e", "mu mu", "pi pi", "k k"):
        want = want + 2 * rad["fermion" if P.ch in LEPTONS else "scalar"](e, Q ** 2, ma)
    C.eq(got[P.i], want, "the decay products of both particles and their radiation")


@contract("K21", funcs(MULTI), params=dict(KF, ch=Choice(*MULTI), k=Int(2, 5), bins=Arr(E, shape=(4, "k")), probs=Arr(Real(0, None, samp=(0.0, 1.0)), shape=(4, "k")), masses=Arr(E, shape=(6, "k")), mprobs=Arr(Real(0, None, samp=(0.0, 1.0)), shape=(6, "k")), **ES), requires=HALF)
def gev_many_body_spectra(C, P):
    """every particle's decay spectrum folded with its own energy distribution, radiation of charged pairs with their mass distribution"""
    p = C.mod("hazma.parameters")
    f, rad = decays(C, P.kind, P.flavor), radiation(C)
    m = fixed_model(C)
    name, parts = HADRONS[P.ch]
    row = lambda j: 0 if parts[j] == K0 and parts.count(K0) == 2 and j < 2 else j  # K0 and its antiparticle alike
    D = [Dist(P.bins[row(j)], P.probs[row(j)]) for j in range(len(parts))]
    I = {k: Dist(P.masses[j], P.mprobs[j]) for j, k in enumerate(PAIRS)}
    ff = getattr(m, {"Pi0KpKm": "_ff_pi0_k_k"}.get(name, "_ff_" + ident(P.ch)))
    asked = []
    ff.energy_distributions = lambda q, couplings, nbins, npts=None: (asked.append((q, couplings)), D)[1]
    ff.invariant_mass_distributions = lambda q, couplings, nbins, npts=None: (asked.append((q, couplings)), I)[1]
    got = channel_spectrum(m, P.kind, P.flavor, P.ch, P.es, P.Q)
    C.eq(got.shape[0], P.es.shape[0], "shape")
    e, Q = P.es[P.i], P.Q
    if Q < sum(getattr(p, n + "_mass") for n in parts):
        C.eq(got[P.i], 0.0, "zero below threshold")
        return
    for q, c in asked:
        C.eq(q, Q, "distributions at the energy of the annihilation")
        C.true(c is m._couplings, "distributions for the couplings of the model")
    kaon = lambda es, en: 0.5 * (f["long_kaon"](es, en) + f["short_kaon"](es, en))
    want = 0.0
    for d, n in zip(D, parts):
        g = kaon if n == K0 else f[n]
        want = want + C.np.trapezoid(d.probabilities * g(e, d.bin_centers), d.bin_centers)
    if P.kind == "photon":
        for k, c in FSR_PAIRS.get(P.ch, []):
            d = I[k]
            want = want + C.np.trapezoid(d.probabilities * c * rad["scalar"](e, d.bin_centers ** 2, p.charged_pion_mass), d.bin_centers)
    C.eq(got[P.i], want, "the decay products of every particle and the radiation of charged pairs")


@contract("K21", funcs(["pi0 pi0 gamma"])[:3], params=dict(KF, **ES), requires=HALF)
def gev_pi0_pi0_gamma_spectra(C, P):
    """a pion and an omega at two-body energies, the omega decaying into a pion and a photon"""
    p = C.mod("hazma.parameters")
    f = decays(C, P.kind, P.flavor)
    once, twice = C.fn("boosted.line", 4, 0), C.fn("twice.boosted.line", 5, 0)
    C.patch(SPEC["photon"] + ".boost_delta_function", lambda es, e0, m, beta: once(es, e0, m, beta))
    C.patch(SPEC["photon"] + ".double_boost_delta_function", lambda es, e0, m, beta1, beta2: twice(es, e0, m, beta1, beta2))
    m = fixed_model(C)
    got = channel_spectrum(m, P.kind, P.flavor, "pi0 pi0 gamma", P.es, P.Q)
    C.eq(got.shape[0], P.es.shape[0], "shape")
    e, Q, mp, mo = P.es[P.i], P.Q, p.neutral_pion_mass, p.omega_mass
    if P.kind != "photon" or Q < mp + mo:
        C.eq(got[P.i], 0.0, "zero below threshold; neutral pions and photons give no positrons or neutrinos")
        return
    speed = lambda en, ma: C.sqrt(1 - 1 / (en / ma) ** 2)
    b = speed((Q ** 2 - mp ** 2 + mo ** 2) / (2 * Q), mo)
    line = once(e, (mo ** 2 - mp ** 2) / (2 * mo), 0.0, b)
    pion = 2 * 0.98823 * twice(e, mp / 2, 0.0, speed((mo ** 2 + mp ** 2) / (2 * mo), mp), b)
    C.eq(got[P.i], f["neutral_pion"](e, (Q ** 2 + mp ** 2 - mo ** 2) / (2 * Q)) + line + pion, "both pions and the photon, once each")


@contract("K21", funcs(["v v"])[:3] + [SPEC["photon"] + ":_dnde_photon_v_v_rest_frame"], params=dict(KF, mv=M, w=Arr(Real(0, None, samp=(0.1, 3.0)), shape=(25,)), **ES), requires=lambda P: HALF(P) and P.w[0] > 0)
def gev_mediator_pair_spectra(C, P):
    """the spectrum of a mediator at rest, weighted with its branching fractions, boosted, twice"""
    p = C.mod("hazma.parameters")
    mod = SPEC[P.kind]
    names = sorted(CHANNELS) + ["x x"]
    f = {ch: C.fn("channel." + ch, 2, 0) for ch in CHANNELS if ch[0] != "v"}
    for ch in f:
        C.patch("%s.dnde_%s_%s" % (mod, P.kind, ident(ch)), lambda self, es, q, *a, ch=ch, **k: f[ch](es, q))
    boosted, once = C.fn("boosted", 3, 0), C.fn("boosted.line", 4, 0)
    C.patch("hazma.spectra.boost.dnde_boost_array", lambda d, es, beta, mass=0.0: d * boosted(es, beta, mass))  # a boost is linear
    if P.kind == "photon":
        C.patch(mod + ".boost_delta_function", lambda es, e0, m, beta: once(es, e0, m, beta))
    form_factors(C)
    m = C.mod(GEV + ".model").VectorMediatorGeV(100.0, P.mv, *[1.0] * 9)
    w = {n: P.w[j] for j, n in enumerate(names)}
    m.partial_widths = lambda **k: w
    got = channel_spectrum(m, P.kind, P.flavor, "v v", P.es, P.Q)
    C.eq(got.shape[0], P.es.shape[0], "shape")
    e, mv = P.es[P.i], P.mv
    if P.Q < 2 * mv:
        C.eq(got[P.i], 0.0, "zero below threshold")
        return
    total = sum(w.values())
    beta = C.sqrt(1 - 1 / (P.Q / (2 * mv)) ** 2)
    rest = sum(w[ch] / total * f[ch](e, mv) for ch in f)
    if P.kind == "photon":
        if mv > 2 * p.electron_mass:
            lines = sum(w[n] / total * once(e, (mv - getattr(p, k + "_mass") ** 2 / mv) / 2, 0.0, beta) for n, k in (("pi0 gamma", P0), ("eta gamma", ET)))
            C.eq(got[P.i], 2 * rest * boosted(e, beta, 0.0) + 2 * lines, "two mediators: continuum and lines")
    else:
        C.eq(got[P.i], 2 * rest * boosted(e, beta, p.electron_mass if P.kind == "positron" else 0.0), "two mediators")


@contract("K21", [VM + k for k in ("_gamma_ray_line_energies", "_positron_line_energies", "_neutrino_line_energies", "neutrino_lines", "neutrino_spectrum_funcs", "neutrino_spectra", "total_neutrino_spectrum")], params=dict(KF, closed=Choice("none", *sorted(CHANNELS)[::4], "v v"), **{"s%d" % j: Real(0, None, samp=(0.1, 2.0)) for j in range(25)}, **ES), requires=HALF)
def gev_lines_and_neutrinos(C, P):
    """branching fractions are those of the cross sections; channels that are closed contribute nothing"""
    p = C.mod("hazma.parameters")
    m = fixed_model(C)
    names = sorted(CHANNELS)
    sig = {n: getattr(P, "s%d" % j) for j, n in enumerate(names + ["v v"])}
    m.annihilation_cross_section_funcs = lambda: {n: (lambda q, n=n: sig[n]) for n in sig}
    if P.closed != "none":
        sig[P.closed] = 0.0
    Q, e = P.Q, P.es[P.i]
    bf = m.annihilation_branching_fractions(Q)
    if P.kind == "photon":
        C.eq(m.gamma_ray_lines(Q), {n: {"energy": (Q ** 2 - getattr(p, k + "_mass") ** 2) / (2 * Q), "bf": bf[n]} for n, k in (("pi0 gamma", P0), ("eta gamma", ET))}, "photon lines")
    if P.kind == "positron":
        C.eq(m.positron_lines(Q), {"e e": {"energy": Q / 2, "bf": bf["e e"]}}, "positron lines")
    if P.kind == "neutrino":
        ch = {"e": "ve ve", "mu": "vm vm", "tau": "vt vt"}[P.flavor]
        C.eq(m.neutrino_lines(Q, P.flavor), {ch: {"energy": Q / 2, "bf": bf[ch]}}, "neutrino lines")
        C.raises(ValueError, lambda: m.neutrino_lines(Q, "sterile"), "unknown flavor")
        f = {n: C.fn("neutrinos." + n, 2, 0) for n in sig}
        m._neutrino_spectrum_funcs = lambda: {n: (lambda es, q, flavor, n=n: f[n](es, q) * {"e": 1.0, "mu": 2.0, "tau": 3.0}[flavor]) for n in sig}
        c = {"e": 1.0, "mu": 2.0, "tau": 3.0}[P.flavor]
        got, one = m.neutrino_spectra(P.es, Q, flavor=P.flavor), m.neutrino_spectrum_funcs(P.flavor)
        C.true(set(got) == set(sig) | {"total"}, "the channels")
        for n in sig:
            C.eq(one[n](P.es, Q)[P.i], C.ite(sig[n] > 0, c * f[n](e, Q), 0.0), "open channels")
            C.eq(got[n][P.i], bf[n] * c * f[n](e, Q), "weighted with the branching fraction")
        C.eq(got["total"][P.i], sum(bf[n] * c * f[n](e, Q) for n in sig), "total")
        C.eq(m.total_neutrino_spectrum(P.es, Q, flavor=P.flavor)[P.i], got["total"][P.i], "the total")


SMALL = ["e e", "mu mu", "ve ve", "vt vt", "vm vm"] + [k for k in TWO if k in HADRONS]
THREE = [k for k in MULTI if k not in FOUR] + ["pi0 pi0 gamma"]


@contract("K21", [GEV + ".thermal_cross_section:relic_density", GEV + ".thermal_cross_section:_make_final_states"], params=dict(x=Real(0, None, samp=(1.0, 50.0)), mx=M, three=Choice(False, True), four=Choice(False, True)))
def gev_relic_density(C, P):
    """the thermal average of the annihilation into the chosen final states (Gondolo and Gelmini)"""
    form_factors(C)
    m = C.mod(GEV + ".model").VectorMediatorGeV(P.mx, 1000.0, *[1.0] * 9)
    f = {n: C.fn("sigma." + n, 1, 0) for n in sorted(CHANNELS) + ["v v"]}
    m.annihilation_cross_section_funcs = lambda: dict(f)
    seen = []
    C.patch(GEV + ".thermal_cross_section.rd", lambda model, **k: (seen.append((model, k)), 7.0)[1])
    C.eq(m.relic_density(three_body=P.three, four_body=P.four, semi_analytic=False, delta=0.5, x0=2.0, xf=30.0, method="BDF", rtol=0.1, atol=0.2), 7.0, "the relic density")
    (model, k), = seen
    C.true(k == dict(semi_analytic=False, delta=0.5, x0=2.0, xf=30.0, method="BDF", rtol=0.1, atol=0.2), "options")
    C.eq(model.mx, P.mx, "mass")
    sp = C.mod("scipy.special")
    got = model.thermal_cross_section(P.x)
    chosen = SMALL + (THREE if P.three else []) + (FOUR if P.four else [])
    if P.x > 300:
        C.eq(got, 0.0, "vanishing density")
    else:
        sig = lambda z: sum(f[n](P.mx * z) for n in chosen)
        want = C.integral(lambda z: sig(z) * z ** 2 * (z ** 2 - 4) * sp.k1(P.x * z), 2.0, 2.0 + 50.0 / P.x)
        C.eq(got, P.x / (2 * sp.kn(2, P.x)) ** 2 * want, "thermal average")
