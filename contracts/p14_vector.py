"""Vector mediator: widths, histories of assignments, spectra and cross sections."""
from vc.api import contract, Real, Int, Arr, Choice
PROPS = ["K14"]
VM = "hazma.vector_mediator"
W = VM + "._vector_mediator_widths:VectorMediatorWidths."
X = VM + "._vector_mediator_cross_sections:VectorMediatorCrossSections."
S = VM + "._vector_mediator_spectra:VectorMediatorSpectra."
POS = VM + "._vector_mediator_positron_spectra:VectorMediatorPositronSpectra."
FSR = VM + "._vector_mediator_fsr:VectorMediatorFSR."
M = Real(0, None, samp=(100.0, 900.0))
G = Real(-3, 3)
GS = ["gvxx", "gvuu", "gvdd", "gvss", "gvee", "gvmumu"]
NAMES = ["mx", "mv"] + GS
PAR = dict(mx=M, mv=M, **{k: G for k in GS})
E = Real(0, None, samp=(1.0, 300.0))
CM = Real(0, None, samp=(200.0, 2000.0))
HALF = lambda P: P.i < P.es.shape[0]
ES = dict(es=Arr(E, minlen=1), i=Int(0, None, samp=(0, 3)))


def attr(q):
    """dotted name of a module-level name of the module of q"""
    return q.split(":")[0] + "."


def model(C, P, **new):
    return C.mod(VM).VectorMediator(**dict({k: getattr(P, k) for k in NAMES}, **new))


def same(C, m, n, what):
    for k in NAMES + ["width_v"]:
        C.eq(getattr(m, k), getattr(n, k), "%s: %s" % (what, k))


@contract("K14", [VM + ":VectorMediator." + k for k in ("__init__", "compute_width_v")], params=dict(PAR, which=Choice(*NAMES), new=Real(0, 3, samp=(0.5, 3.0)), other=M))
def vector_setters(C, P):
    m = model(C, P)
    for k in NAMES:
        C.eq(getattr(m, k), getattr(P, k), "parameters")
    v = P.new if P.which[0] == "g" else P.other
    setattr(m, P.which, v)
    same(C, m, model(C, P, **{P.which: v}), "an assignment leaves the model of the new parameters")
    C.eq(m.width_v, m.partial_widths()["total"], "the width is the total width")
    setattr(m, P.which, getattr(P, P.which))
    same(C, m, model(C, P), "an assignment can be undone")


def charges(C, eps):
    """couplings to up, down, strange, electron, muon of a kinetically mixed photon"""
    q = eps * C.sqrt(4 * C.pi * C.mod("hazma.parameters").alpha_em)
    return [-2 * q / 3, q / 3, q / 3, q, q]


@contract("K14", [VM + ":KineticMixing." + k for k in ("__init__", "eps", "gvuu")], params=dict(mx=M, mv=M, gvxx=G, eps=G, new=G, other=M, which=Choice("mx", "mv", "gvxx", "eps")))
def kinetic_mixing(C, P):
    mod = C.mod(VM)
    a = {k: getattr(P, k) for k in ("mx", "mv", "gvxx", "eps")}
    m = mod.KineticMixing(**a)
    same(C, m, mod.VectorMediator(P.mx, P.mv, P.gvxx, *charges(C, P.eps)), "the couplings of the mixing parameter")
    a[P.which] = P.new if P.which in ("gvxx", "eps") else P.other
    setattr(m, P.which, a[P.which])
    C.eq(m.eps, a["eps"], "mixing parameter")
    same(C, m, mod.VectorMediator(a["mx"], a["mv"], a["gvxx"], *charges(C, a["eps"])), "the couplings of the mixing parameter after an assignment")
    for k in GS[1:]:
        C.raises(AttributeError, lambda k=k: setattr(m, k, 1.0), "derived couplings cannot be assigned")


@contract("K14", [VM + ":QuarksOnly." + k for k in ("__init__", "gvee", "gvmumu", "list_annihilation_final_states")], params=dict({k: PAR[k] for k in NAMES[:6]}, new=G, other=M, which=Choice(*NAMES[:6])))
def quarks_only(C, P):
    mod = C.mod(VM)
    a = {k: getattr(P, k) for k in NAMES[:6]}
    m = mod.QuarksOnly(**a)
    a[P.which] = P.other if P.which[0] == "m" else P.new
    setattr(m, P.which, a[P.which])
    same(C, m, mod.VectorMediator(*[a[k] for k in NAMES[:6]], 0.0, 0.0), "no couplings to leptons")
    for k in GS[4:]:
        C.raises(AttributeError, lambda k=k: setattr(m, k, 1.0), "lepton couplings cannot be assigned")
    C.true(set(m.list_annihilation_final_states()) == {"pi pi", "pi0 g", "pi0 v", "v v"}, "hadronic channels only")


# --- partial widths -------------------------------------------------------------------------

def two_body(C, M, m1, m2, msqrd):
    """width of a particle of mass M into masses m1, m2, zero below threshold"""
    if M > m1 + m2:
        s = M ** 2
        return msqrd * C.sqrt((s - (m1 + m2) ** 2) * (s - (m1 - m2) ** 2)) / (16 * C.pi * M ** 3)
    return 0.0


@contract("K14", [W + k for k in ("width_v_to_pipi", "width_v_to_pi0g", "width_v_to_xx", "width_v_to_ff", "partial_widths")], params=PAR)
def vector_widths(C, P):
    p = C.mod("hazma.parameters")
    m = model(C, P)
    w = m.partial_widths()
    C.true(set(w) == {"pi pi", "pi0 g", "x x", "e e", "mu mu", "total"}, "the channels")
    mv = P.mv
    ferm = lambda g, mf: 4 * g ** 2 * (mv ** 2 + 2 * mf ** 2) / 3  # averaged over three polarisations
    C.eq(w["x x"], two_body(C, mv, P.mx, P.mx, ferm(P.gvxx, P.mx)), "dark matter")
    for f, mf, g in (("e", p.electron_mass, P.gvee), ("mu", p.muon_mass, P.gvmumu)):
        C.eq(w[f + " " + f], two_body(C, mv, mf, mf, ferm(g, mf)), "leptons")
        C.eq(m.width_v_to_ff(f), w[f + " " + f], "leptons, alone")
    C.eq(m.width_v_to_ff("tau"), 0.0, "no other leptons")
    mpi, mpi0 = p.charged_pion_mass, p.neutral_pion_mass
    # scalar current: |(gdd - guu) eps.(p1 - p2)|^2
    C.eq(w["pi pi"], two_body(C, mv, mpi, mpi, (P.gvdd - P.gvuu) ** 2 * (mv ** 2 - 4 * mpi ** 2) / 3), "charged pions")
    # Wess-Zumino-Witten: e (gdd + 2 guu) / (4 pi^2 fpi) eps^{mnab} d_m A_n d_a V_b pi0, e^2 = 4 pi alpha
    g2 = 4 * C.pi * p.alpha_em * ((P.gvdd + 2 * P.gvuu) / (4 * C.pi ** 2 * p.fpi)) ** 2
    C.eq(w["pi0 g"], two_body(C, mv, mpi0, 0, g2 * (mv ** 2 - mpi0 ** 2) ** 2 / 6), "neutral pion and photon")
    C.eq(w["total"], sum(w[k] for k in ("pi pi", "pi0 g", "x x", "e e", "mu mu")), "the total is the sum")
    C.le(0.0, w["total"], "not negative")


# --- cross sections ---------------------------------------------------------------------------

KERNELS = dict(sigma_xx_to_v_to_pipi="pipi", sigma_xx_to_v_to_pi0g="pi0g", sigma_xx_to_v_to_pi0v="pi0v", sigma_xx_to_vv="vv")


def kernels(C):
    """the compiled cross sections are arbitrary functions of their arguments"""
    k = {}
    for n in KERNELS.values():
        k[n] = C.fn("kernel." + n, 10, 0)
        C.patch(attr(X) + "sig_" + n, k[n])
    k["ff"] = C.fn("kernel.ff", 7, 0)
    C.patch(attr(X) + "sig_ff", k["ff"])
    k["tcs"] = C.fn("kernel.tcs", 10, 0)
    C.patch(attr(X) + "tcs", k["tcs"])
    return k


@contract("K14", [X + k for k in list(KERNELS) + ["sigma_xx_to_v_to_ff", "annihilation_cross_section_funcs", "thermal_cross_section"]], params=dict(PAR, e=CM, x=Real(0, None, samp=(1.0, 50.0)), which=Choice(*NAMES), new=Real(0, 3, samp=(0.5, 3.0))))
def vector_cross_sections(C, P):
    """every cross section is the compiled one, at the present parameters and width"""
    p = C.mod("hazma.parameters")
    K = kernels(C)
    m = model(C, P)
    setattr(m, P.which, P.new)
    v = {k: P.new if k == P.which else getattr(P, k) for k in NAMES}
    a = list(v.values()) + [C.mod(VM).VectorMediator(**v).width_v]
    s = m.annihilation_cross_section_funcs()
    C.true(set(s) == {"mu mu", "e e", "pi pi", "pi0 g", "pi0 v", "v v"} == set(m.list_annihilation_final_states()), "the channels")
    for ch, k in (("pi pi", "pipi"), ("pi0 g", "pi0g"), ("pi0 v", "pi0v"), ("v v", "vv")):
        C.eq(s[ch](P.e), K[k](P.e, *a), "annihilation cross section")
    for n, k in KERNELS.items():
        C.eq(getattr(m, n)(P.e), K[k](P.e, *a), "cross section")
    for f, mf in (("e", p.electron_mass), ("mu", p.muon_mass)):
        want = K["ff"](P.e, v["mx"], v["mv"], v["gvxx"], v["gv" + f + f], a[-1], mf)
        C.eq(s[f + " " + f](P.e), want, "annihilation into leptons")
        C.eq(m.sigma_xx_to_v_to_ff(P.e, f), want, "annihilation into leptons")
    C.eq(m.thermal_cross_section(P.x), K["tcs"](P.x, *a), "thermal average")


@contract("K14", [X + "sigma_xx_to_v_to_xx"], params=dict(PAR, **dict(ES, es=Arr(CM, minlen=1))), requires=HALF)
def vector_self_scattering(C, P):
    m = model(C, P)
    e = P.es[P.i]
    f = m.sigma_xx_to_v_to_xx(P.es)[P.i]
    C.eq(C.ite(e <= 2 * P.mx, f, 0.0), 0.0, "zero below threshold")


@contract("K14", [X + k for k in ("dsigma_ds_xx_to_v_to_pi0pipi", "sigma_xx_to_v_to_pi0pipi")], params=dict(PAR, e=CM, s=Real(0, None, samp=(8e4, 4e5))), hooks={"assume_asserts": True})
def vector_three_pions(C, P):
    p = C.mod("hazma.parameters")
    mpi, mpi0 = p.charged_pion_mass, p.neutral_pion_mass
    m = model(C, P)
    f = m.dsigma_ds_xx_to_v_to_pi0pipi(P.s, P.e)
    g = C.fn("dsigma_ds", 2, 0)
    if P.e <= 2 * mpi + mpi0 or P.e <= 2 * P.mx:
        C.eq(f, 0.0, "zero below threshold")
        C.eq(m.sigma_xx_to_v_to_pi0pipi(P.e), 0.0, "zero below threshold")
    else:
        if P.s <= 4 * mpi ** 2 or P.s >= (P.e - mpi0) ** 2:
            C.eq(f, 0.0, "zero outside of phase space")
        m.dsigma_ds_xx_to_v_to_pi0pipi = g
        C.eq(m.sigma_xx_to_v_to_pi0pipi(P.e), C.integral(lambda s: g(s, P.e), 4 * mpi ** 2, (P.e - mpi0) ** 2), "integral over the pair mass")


# --- spectra ------------------------------------------------------------------------------------

def parts(C):
    """decay spectra and radiation are arbitrary functions"""
    f = {}
    for n in ("photon_muon", "photon_neutral_pion", "photon_charged_pion", "positron_muon", "positron_charged_pion"):
        f[n] = C.fn(n, 2, 0)
        C.patch("hazma.spectra.dnde_" + n, f[n])
    return f


@contract("K14", [S + k for k in ("dnde_ee", "dnde_mumu", "dnde_pi0g", "dnde_pipi", "spectrum_funcs")], params=dict(PAR, Q=CM, what=Choice("all", "fsr", "decay"), **ES), requires=HALF)
def vector_photon_spectra(C, P):
    p = C.mod("hazma.parameters")
    f = parts(C)
    ffe, ffm, pipig = C.fn("eeg", 2, 0), C.fn("mumug", 2, 0), C.fn("pipig", 2, 0)
    m = model(C, P)
    m.dnde_xx_to_v_to_ffg, m.dnde_xx_to_v_to_pipig = (lambda e, Q, f: {"e": ffe, "mu": ffm}[str(f)](e, Q)), pipig
    e, Q = P.es[P.i], P.Q
    fsr, dec = P.what in ("all", "fsr"), P.what in ("all", "decay")
    want = {
        "e e": ffe(e, Q) * fsr,
        "mu mu": ffm(e, Q) * fsr + 2 * f["photon_muon"](e, Q / 2) * dec,
        "pi0 g": f["photon_neutral_pion"](e, (Q ** 2 + p.neutral_pion_mass ** 2) / (2 * Q)) * dec,
        "pi pi": pipig(e, Q) * fsr + 2 * f["photon_charged_pion"](e, Q / 2) * dec,
    }
    got = m.spectrum_funcs()
    C.true(set(got) == set(want) | {"pi0 v", "v v"}, "the channels")
    for k, v in want.items():
        g = got[k](P.es, Q, P.what)
        C.eq(g[P.i], v, "radiation plus the decays of the particles at their energies")
        C.eq(g.shape[0], P.es.shape[0], "shape")
        C.raises(ValueError, lambda k=k: got[k](P.es, Q, "other"), "unknown type")
        if P.what == "all":
            C.eq(got[k](P.es, Q)[P.i], v, "everything by default")


@contract("K14", [POS + k for k in ("dnde_pos_pipi", "dnde_pos_mumu", "positron_spectrum_funcs", "positron_lines")] + [S + "gamma_ray_lines"], params=dict(PAR, e=E, Q=CM))
def vector_positrons_and_lines(C, P):
    f = parts(C)
    kernels(C)
    m = model(C, P)
    got = m.positron_spectrum_funcs()
    C.true(set(got) == {"mu mu", "pi pi", "v v"}, "the channels")
    C.eq(got["mu mu"](P.e, P.Q), f["positron_muon"](P.e, P.Q / 2), "the antimuon")
    C.eq(got["pi pi"](P.e, P.Q), f["positron_charged_pion"](P.e, P.Q / 2), "the positive pion")
    bf = m.annihilation_branching_fractions(P.Q)
    C.eq(m.gamma_ray_lines(P.Q), {"pi0 g": {"energy": (P.Q ** 2 - C.mod("hazma.parameters").neutral_pion_mass ** 2) / (2 * P.Q), "bf": bf["pi0 g"]}}, "photon lines")
    C.eq(m.positron_lines(P.Q), {"e e": {"energy": P.Q / 2, "bf": bf["e e"]}}, "positron lines")


@contract("K14", [S + k for k in ("__dnde_v", "dnde_pi0v", "dnde_vv")] + [POS + "dnde_pos_vv"], params=dict(PAR, Q=CM, **ES), requires=HALF)
def vector_pair_spectra(C, P):
    """mediators decay with their branching fractions, at the energy two-body kinematics gives them"""
    p = C.mod("hazma.parameters")
    pi0 = parts(C)["photon_neutral_pion"]
    ph, po = C.fn("mediator.photons", 7, 0), C.fn("mediator.positrons", 6, 0)
    seen = []
    stand = lambda f, n: lambda e, ev, mv, pw, fs: (seen.append(fs), f(e, ev, mv, *[pw[k] for k in range(n)]))[1]
    for k in ("dnde_decay_v", "dnde_decay_v_pt"):
        C.patch(attr(S) + k, stand(ph, 4))
    C.patch(attr(POS) + "dnde_decay_v", stand(po, 3))
    m = model(C, P)
    w = m.partial_widths()
    e, Q, mpi0 = P.es[P.i], P.Q, p.neutral_pion_mass
    a, b, c = m.dnde_vv(P.es, Q)[P.i], m.dnde_pos_vv(P.es, Q)[P.i], m.dnde_pi0v(P.es, Q)[P.i]
    pion = pi0(e, (Q ** 2 + mpi0 ** 2 - P.mv ** 2) / (2 * Q))
    if w["total"] == 0:
        C.eq(a, 0.0, "a mediator that does not decay")
        C.eq(b, 0.0, "a mediator that does not decay")
        C.eq(c, pion, "the pion of a mediator that does not decay")
        C.eq(m.dnde_vv(e, Q), 0.0, "a mediator that does not decay")
    else:
        br = lambda *ks: [w[k] / w["total"] for k in ks]
        four = br("e e", "mu mu", "pi0 g", "pi pi")
        C.eq(a, 2 * ph(e, Q / 2, P.mv, *four), "photons of two mediators")
        C.eq(m.dnde_vv(e, Q), a, "single energies")
        C.eq(b, 2 * po(e, Q / 2, P.mv, *br("e e", "mu mu", "pi pi")), "positrons of two mediators")
        C.eq(c, pion + ph(e, (Q ** 2 - mpi0 ** 2 + P.mv ** 2) / (2 * Q), P.mv, *four), "photons of a pion and a mediator")
        C.true(all(k == "total" for k in seen), "all modes")


# --- radiation -------------------------------------------------------------------------------------

NONNEG = dict(hooks={"assume_asserts": True}, assumes=["the assertions of the code that radiation spectra are not negative are taken as given; their values are proved"])
INSIDE = dict(params=dict(mx=M, Q=CM, mu=Real(0, 0.5, samp=(0.01, 0.4)), w=Real(0, 1, samp=(0.05, 0.5))), requires=lambda P: 4 * P.mu ** 2 < 1 - P.w ** 2)


def any_model(C, P):
    return C.mod(VM).VectorMediator(P.mx, 250.0, 1.0, 1e-3, 1e-3, 1e-3, 1e-3, 1e-3)


def inside(C, P):
    """every photon energy inside phase space, by the velocity w of either particle where
    the pair rests and m/Q; returns e, x, r = (m/Q)^2 and log((1+w)/(1-w))"""
    r = P.mu ** 2
    x = 1 - 4 * r / (1 - P.w ** 2)
    return x * P.Q / 2, x, r, C.log((1 + P.w) / (1 - P.w))


def outside(P, mf):
    return P.Q < 2 * mf or P.Q < 2 * P.mx or P.Q ** 2 - 2 * P.Q * P.e < 4 * mf ** 2


@contract("K14", [FSR + "__dnde_xx_to_v_to_ffg", FSR + "dnde_xx_to_v_to_ffg"], **dict(INSIDE, params=dict(INSIDE["params"], f=Choice("e", "mu"))), **NONNEG)
def vector_lepton_radiation(C, P):
    m = any_model(C, P)
    a = C.mod("hazma.parameters").alpha_em
    e, x, r, L = inside(C, P)
    C.patch(attr(FSR) + {"e": "me", "mu": "mmu"}[P.f], P.mu * P.Q)
    f = m.dnde_xx_to_v_to_ffg(e, P.Q, P.f)
    C.eq(m.dnde_xx_to_v_to_ffg(C.np.array([e]), P.Q, P.f)[0], f, "arrays agree with single energies")
    if 2 * P.mx < P.Q:
        C.eq(f * C.pi * e * C.sqrt(1 - 4 * r) * (1 + 2 * r), a * ((1 + (1 - x) ** 2 - 4 * r * x - 8 * r ** 2) * L - (1 + (1 - x) ** 2 + 4 * r * (1 - x)) * P.w), "radiation off a fermion pair")


@contract("K14", [FSR + "__dnde_xx_to_v_to_pipig", FSR + "dnde_xx_to_v_to_pipig"], **INSIDE, **NONNEG)
def vector_pion_radiation(C, P):
    m = any_model(C, P)
    a = C.mod("hazma.parameters").alpha_em
    e, x, r, L = inside(C, P)
    C.patch(attr(FSR) + "mpi", P.mu * P.Q)
    f = m.dnde_xx_to_v_to_pipig(e, P.Q)
    C.eq(m.dnde_xx_to_v_to_pipig(C.np.array([e]), P.Q)[0], f, "arrays agree with single energies")
    if 2 * P.mx < P.Q:
        C.eq(f * C.pi * e * (1 - 4 * r) ** 1.5, 2 * a * ((1 - x - 2 * r) * (1 - 4 * r) * L - ((1 - x) * (1 - 4 * r) - x ** 2) * P.w), "radiation off a pion pair")


@contract("K14", [FSR + "__dnde_xx_to_v_to_ffg", FSR + "__dnde_xx_to_v_to_pipig"], params=dict(mx=M, Q=CM, e=E), **NONNEG)
def vector_no_radiation(C, P):
    m = any_model(C, P)
    p = C.mod("hazma.parameters")
    for f, mf in (("e", p.electron_mass), ("mu", p.muon_mass)):
        if outside(P, mf):
            C.eq(m.dnde_xx_to_v_to_ffg(P.e, P.Q, f), 0.0, "no radiation outside of phase space")
    if outside(P, p.charged_pion_mass):
        C.eq(m.dnde_xx_to_v_to_pipig(P.e, P.Q), 0.0, "no radiation outside of phase space")
