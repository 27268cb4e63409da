"""Scalar mediator: widths, histories of assignments, spectra and cross sections."""
from vc.api import contract, Real, Int, Arr, Choice, Energies
PROPS = ["K13"]
SM = "hazma.scalar_mediator"
W = SM + "._scalar_mediator_widths:"
X = SM + "._scalar_mediator_cross_sections:"
S = SM + "._scalar_mediator_spectra:"
POS = SM + "._scalar_mediator_positron_spectra:"
FSR = SM + "._scalar_mediator_fsr:"
M = Real(0, None, samp=(100.0, 900.0))
G = Real(-3, 3)
PAR = dict(mx=M, ms=M, gsxx=G, gsff=G, gsGG=G, gsFF=G, lam=Real(0, None, samp=(1e5, 1e6)))
NAMES = list(PAR)
E = Real(0, None, samp=(1.0, 300.0))
CM = Real(0, None, samp=(200.0, 2000.0))


def model(C, P, **new):
    return C.mod(SM).ScalarMediator(**dict({k: getattr(P, k) for k in NAMES}, **new))


def same(C, m, n, names, what):
    for k in list(names) + ["vs", "width_s"]:
        C.eq(getattr(m, k), getattr(n, k), "%s: %s" % (what, k))


@contract("K13", [SM + ":ScalarMediator." + k for k in ("__init__", "compute_vs", "compute_width_s")], params=dict(PAR, which=Choice(*NAMES), new=Real(0, 3, samp=(0.5, 3.0)), other=Real(0, None, samp=(100.0, 900.0))))
def scalar_setters(C, P):
    m = model(C, P)
    for k in NAMES:
        C.eq(getattr(m, k), getattr(P, k), "parameters")
    v = P.new if P.which[0] == "g" else P.other
    setattr(m, P.which, v)
    same(C, m, model(C, P, **{P.which: v}), NAMES, "an assignment leaves the model of the new parameters")
    C.eq(m.width_s, m.partial_widths()["total"], "the width is the total width")
    setattr(m, P.which, getattr(P, P.which))
    same(C, m, model(C, P), NAMES, "an assignment can be undone")


@contract("K13", [SM + ":HiggsPortal.__init__", SM + ":HiggsPortal.stheta"], params=dict(mx=M, ms=M, gsxx=G, stheta=G, new=G, other=M, which=Choice("mx", "ms", "gsxx", "stheta")))
def higgs_portal(C, P):
    mod = C.mod(SM)
    vh = C.mod("hazma.parameters").vh
    a = {k: getattr(P, k) for k in ("mx", "ms", "gsxx", "stheta")}
    m = mod.HiggsPortal(**a)
    a[P.which] = P.other if P.which[0] == "m" else P.new
    setattr(m, P.which, a[P.which])
    t = a["stheta"]
    C.eq(m.stheta, t, "mixing angle")
    same(C, m, mod.ScalarMediator(a["mx"], a["ms"], a["gsxx"], t, 3 * t, -5 * t / 6, vh), NAMES, "the scalar mediator of the mixing angle")
    for k in ("gsff", "gsGG", "gsFF"):
        C.raises(AttributeError, lambda k=k: setattr(m, k, 1.0), "derived couplings cannot be assigned")


@contract("K13", [SM + ":HeavyQuark.__init__"] + [SM + ":HeavyQuark." + k for k in ("gsQ", "mQ", "QQ")], params=dict(mx=M, ms=M, gsxx=G, gsQ=G, mQ=Real(0, None, samp=(1e5, 1e6)), QQ=G, new=G, other=M, which=Choice("mx", "ms", "gsxx", "gsQ", "mQ", "QQ")))
def heavy_quark(C, P):
    mod = C.mod(SM)
    a = {k: getattr(P, k) for k in ("mx", "ms", "gsxx", "gsQ", "mQ", "QQ")}
    m = mod.HeavyQuark(**a)
    a[P.which] = P.other if P.which[0] == "m" else P.new
    setattr(m, P.which, a[P.which])
    for k in ("gsQ", "mQ", "QQ"):
        C.eq(getattr(m, k), a[k], "parameters of the quark")
    same(C, m, mod.ScalarMediator(a["mx"], a["ms"], a["gsxx"], 0.0, a["gsQ"], 2 * a["gsQ"] * a["QQ"] ** 2, a["mQ"]), NAMES, "the scalar mediator of the heavy quark")
    for k in ("gsff", "gsGG", "gsFF"):
        C.raises(AttributeError, lambda k=k: setattr(m, k, 1.0), "derived couplings cannot be assigned")


# --- partial widths -----------------------------------------------------------------------

WIDTHS = ["width_s_to_gg", "width_s_to_pi0pi0", "width_s_to_pipi", "width_s_to_xx", "width_s_to_ff", "partial_widths"]


def two_body(C, ms, m, msqrd, identical=False):
    """width of a particle of mass ms into a pair of mass m, zero below threshold"""
    if ms > 2 * m:
        w = msqrd * C.sqrt(1 - 4 * m ** 2 / ms ** 2) / (16 * C.pi * ms)
        return w / 2 if identical else w
    return 0.0


@contract("K13", [W + k for k in WIDTHS], params=PAR)
def scalar_widths(C, P):
    p = C.mod("hazma.parameters")
    m = model(C, P)
    w = m.partial_widths()
    C.true(set(w) == {"g g", "pi0 pi0", "pi pi", "x x", "e e", "mu mu", "total"}, "the channels")
    ms = P.ms
    ferm = lambda g, mf: 2 * g ** 2 * (ms ** 2 - 4 * mf ** 2)
    C.eq(w["x x"], two_body(C, ms, P.mx, ferm(P.gsxx, P.mx)), "dark matter")
    for f, mf in (("e", p.electron_mass), ("mu", p.muon_mass)):
        C.eq(w[f + " " + f], two_body(C, ms, mf, ferm(P.gsff * mf / p.vh, mf)), "leptons")
        C.eq(m.width_s_to_ff(f), w[f + " " + f], "leptons, alone")
    C.raises(ValueError, lambda: m.width_s_to_ff("tau"), "unknown lepton")
    # the Lagrangian is alpha gsFF / (4 pi lam) s F F
    C.eq(w["g g"], two_body(C, ms, 0, 8 * (p.alpha_em * P.gsFF / (4 * C.pi * P.lam)) ** 2 * ms ** 4, True) , "photons")
    # chiral perturbation theory at leading order with a vanishing vacuum value
    amp = lambda mpi: -2 * P.gsGG * (ms ** 2 - 2 * mpi ** 2) / (9 * P.lam) - p.b0 * (p.up_quark_mass + p.down_quark_mass) * (P.gsff + 2 * P.gsGG * p.vh / (3 * P.lam)) / p.vh
    C.eq(w["pi pi"], two_body(C, ms, p.charged_pion_mass, amp(p.charged_pion_mass) ** 2), "charged pions")
    C.eq(w["pi0 pi0"], two_body(C, ms, p.neutral_pion_mass, amp(p.neutral_pion_mass) ** 2, True), "neutral pions")
    C.eq(w["total"], sum(w[k] for k in ("g g", "pi0 pi0", "pi pi", "x x", "e e", "mu mu")), "the total is the sum")
    C.le(0.0, w["total"], "not negative")


# --- cross sections --------------------------------------------------------------------------

KERNELS = dict(sigma_xx_to_s_to_gg="gg", sigma_xx_to_s_to_pi0pi0="pi0pi0", sigma_xx_to_s_to_pipi="pipi", sigma_xx_to_ss="ss",
               sigma_xpi_to_xpi="xpi", sigma_xpi0_to_xpi0="xpi0", sigma_xg_to_xg="xg", sigma_xs_to_xs="xs", sigma_ss_to_xx="ss_to_xx")


def kernels(C):
    """the compiled cross sections are arbitrary functions of their arguments"""
    k = {}
    for n in list(KERNELS.values()) + ["ff", "xl"]:
        k[n] = C.fn("kernel." + n, 12 if n in ("ff", "xl") else 11, 0)
        C.patch(X.replace(":", ".") + "sig_" + n, k[n])
    k["tcs"] = C.fn("kernel.tcs", 11, 0)
    C.patch(X.replace(":", ".") + "tcs", k["tcs"])
    return k


@contract("K13", [X + k for k in list(KERNELS) + ["sigma_xx_to_s_to_ff", "sigma_xl_to_xl", "annihilation_cross_section_funcs", "elastic_scattering_cross_sections", "thermal_cross_section"]], params=dict(PAR, e=CM, x=Real(0, None, samp=(1.0, 50.0)), which=Choice(*NAMES), new=Real(0, 3, samp=(0.5, 3.0))))
def scalar_cross_sections(C, P):
    """every cross section is the compiled one, at the present parameters, width and vacuum value"""
    p = C.mod("hazma.parameters")
    K = kernels(C)
    m = model(C, P)
    setattr(m, P.which, P.new)
    a = [P.new if k == P.which else getattr(P, k) for k in NAMES]
    fresh = C.mod(SM).ScalarMediator(*a)
    a += [fresh.width_s, fresh.vs]
    s = m.annihilation_cross_section_funcs()
    C.true(set(s) == {"mu mu", "e e", "g g", "pi0 pi0", "pi pi", "s s"}, "the channels")
    for ch, k in (("g g", "gg"), ("pi0 pi0", "pi0pi0"), ("pi pi", "pipi"), ("s s", "ss")):
        C.eq(s[ch](P.e), K[k](P.e, *a), "annihilation cross section")
    for n, k in KERNELS.items():
        C.eq(getattr(m, n)(P.e), K[k](P.e, *a), "cross section")
    el = m.elastic_scattering_cross_sections(P.e)
    C.true(set(el) == {"pi", "pi0", "e", "mu", "g", "s"}, "the targets")
    for ch, k in (("pi", "xpi"), ("pi0", "xpi0"), ("g", "xg"), ("s", "xs")):
        C.eq(el[ch], K[k](P.e, *a), "elastic cross section")
    for f, mf in (("e", p.electron_mass), ("mu", p.muon_mass)):
        C.eq(s[f + " " + f](P.e), K["ff"](P.e, *a, mf), "annihilation into leptons")
        C.eq(el[f], K["xl"](P.e, *a, mf), "elastic scattering off leptons")
    C.eq(m.thermal_cross_section(P.x), K["tcs"](P.x, *a), "thermal average")


@contract("K13", [X + "sigma_xx_to_s_to_xx"], params=dict(PAR, es=Arr(CM, minlen=1), i=Int(0, None, samp=(0, 3)), flip=Choice("gsff", "gsFF", "gsGG")), requires=lambda P: P.i < P.es.shape[0])
def scalar_self_scattering(C, P):
    m = model(C, P)
    e = P.es[P.i]
    f = m.sigma_xx_to_s_to_xx(P.es)[P.i]
    C.eq(C.ite(e <= 2 * P.mx, f, 0.0), 0.0, "zero below threshold")


# --- spectra -----------------------------------------------------------------------------------

def parts(C):
    """decay spectra and radiation are arbitrary functions"""
    f = {}
    for n in ("photon_muon", "photon_neutral_pion", "photon_charged_pion", "positron_muon", "positron_charged_pion"):
        f[n] = C.fn(n, 2, 0)
        C.patch("hazma.spectra.dnde_" + n, f[n])
    return f


TYPES = ("all", "fsr", "decay")


@contract("K13", [S + k for k in ("dnde_ee", "dnde_mumu", "dnde_pi0pi0", "dnde_pipi", "spectrum_funcs")], params=dict(PAR, es=Arr(E, minlen=1), i=Int(0, None, samp=(0, 3)), Q=CM, what=Choice(*TYPES)), requires=lambda P: P.i < P.es.shape[0])
def scalar_photon_spectra(C, P):
    p = C.mod("hazma.parameters")
    f = parts(C)
    ffg, pipig = C.fn("ffg", 3, 0), C.fn("pipig", 2, 0)
    m = model(C, P)
    m.dnde_xx_to_s_to_ffg, m.dnde_xx_to_s_to_pipig = ffg, pipig
    e, Q = P.es[P.i], P.Q
    fsr, dec = P.what in ("all", "fsr"), P.what in ("all", "decay")
    want = {
        "e e": ffg(e, Q, p.electron_mass) * fsr,
        "mu mu": ffg(e, Q, p.muon_mass) * fsr + 2 * f["photon_muon"](e, Q / 2) * dec,
        "pi0 pi0": 2 * f["photon_neutral_pion"](e, Q / 2) * dec,
        "pi pi": pipig(e, Q) * fsr + 2 * f["photon_charged_pion"](e, Q / 2) * dec,
    }
    got = m.spectrum_funcs()
    C.true(set(got) == set(want) | {"s s"}, "the channels")
    for k, v in want.items():
        g = got[k](P.es, Q, P.what)
        C.eq(g[P.i], v, "radiation plus twice the decay of half the energy")
        C.eq(g.shape[0], P.es.shape[0], "shape")
        C.raises(ValueError, lambda k=k: got[k](P.es, Q, "other"), "unknown type")
        if P.what == "all":
            C.eq(got[k](P.es, Q)[P.i], v, "everything by default")


@contract("K13", [POS + k for k in ("dnde_pos_pipi", "dnde_pos_mumu", "positron_spectrum_funcs", "positron_lines")] + [S + "gamma_ray_lines"], params=dict(PAR, e=E, Q=CM))
def scalar_positrons_and_lines(C, P):
    f = parts(C)
    kernels(C)
    m = model(C, P)
    got = m.positron_spectrum_funcs()
    C.true(set(got) == {"mu mu", "pi pi", "s s"}, "the channels")
    C.eq(got["mu mu"](P.e, P.Q), f["positron_muon"](P.e, P.Q / 2), "the antimuon")
    C.eq(got["pi pi"](P.e, P.Q), f["positron_charged_pion"](P.e, P.Q / 2), "the positive pion")
    bf = m.annihilation_branching_fractions(P.Q)
    C.eq(m.gamma_ray_lines(P.Q), {"g g": {"energy": P.Q / 2, "bf": bf["g g"]}}, "photon lines")
    C.eq(m.positron_lines(P.Q), {"e e": {"energy": P.Q / 2, "bf": bf["e e"]}}, "positron lines")


@contract("K13", [S + "dnde_ss", POS + "dnde_pos_ss"], params=dict(PAR, es=Arr(E, minlen=1), Q=CM, i=Int(0, None, samp=(0, 3))), requires=lambda P: P.i < P.es.shape[0])
def scalar_pair_spectra(C, P):
    """two mediators of half the energy each, decaying with their branching fractions"""
    ph, po = C.fn("mediator.photons", 8, 0), C.fn("mediator.positrons", 6, 0)
    seen = []
    C.patch(S.replace(":", ".") + "scalar_mediator_decay_spectrum", lambda e, es, ms, pw, modes: (seen.append(modes), ph(e, es, ms, *[pw[k] for k in range(5)]))[1])
    C.patch(POS.replace(":", ".") + "dnde_decay_s", lambda e, es, ms, pw, fs: (seen.append(fs), po(e, es, ms, *[pw[k] for k in range(3)]))[1])
    m = model(C, P)
    w = m.partial_widths()
    e = P.es[P.i]
    a, b = m.dnde_ss(P.es, P.Q)[P.i], m.dnde_pos_ss(P.es, P.Q)[P.i]
    if w["total"] == 0:
        C.eq(a, 0.0, "a mediator that does not decay")
        C.eq(b, 0.0, "a mediator that does not decay")
    else:
        br = lambda *ks: [w[k] / w["total"] for k in ks]
        C.eq(a, 2 * ph(e, P.Q / 2, P.ms, *br("e e", "mu mu", "pi0 pi0", "pi pi", "g g")), "photons of two mediators")
        C.eq(b, 2 * po(e, P.Q / 2, P.ms, *br("e e", "mu mu", "pi pi")), "positrons of two mediators")
        C.true(set(seen[0]) == {"pi pi", "mu mu", "pi0 pi0", "g g", "e e g", "pi pi g", "mu mu g"} and seen[1] == "total", "all modes")


NONNEG = dict(hooks={"assume_asserts": True}, assumes=["the assertions of the code that radiation spectra are not negative are taken as given; their values are proved"])


def any_model(C, P):
    return C.mod(SM).ScalarMediator(P.mx, 250.0, 1.0, 1e-3, 1e-3, 1e-3, 246e3)


def inside(C, P):
    """every photon energy inside phase space, by the velocity w of either particle where
    the pair rests and m/Q; returns e, x, r = (m/Q)^2 and log((1+w)/(1-w))"""
    r = P.mu ** 2
    x = 1 - 4 * r / (1 - P.w ** 2)
    return x * P.Q / 2, x, r, C.log((1 + P.w) / (1 - P.w))


INSIDE = dict(params=dict(mx=M, Q=CM, mu=Real(0, 0.5, samp=(0.01, 0.4)), w=Real(0, 1, samp=(0.05, 0.5))), requires=lambda P: 4 * P.mu ** 2 < 1 - P.w ** 2)


def outside(P, mf):
    return P.Q < 2 * mf or P.Q < 2 * P.mx or P.Q ** 2 - 2 * P.Q * P.e < 4 * mf ** 2


@contract("K13", [FSR + "__dnde_xx_to_s_to_ffg", FSR + "dnde_xx_to_s_to_ffg"], **INSIDE, **NONNEG)
def scalar_lepton_radiation(C, P):
    m = any_model(C, P)
    a = C.mod("hazma.parameters").alpha_em
    e, x, r, L = inside(C, P)
    f = m.dnde_xx_to_s_to_ffg(e, P.Q, P.mu * P.Q)
    C.eq(m.dnde_xx_to_s_to_ffg(C.np.array([e]), P.Q, P.mu * P.Q)[0], f, "arrays agree with single energies")
    if 2 * P.mx < P.Q:
        C.eq(f * C.pi * e * (1 - 4 * r) ** 1.5, a * ((1 + (1 - x) ** 2 - 12 * r + 16 * r ** 2 + 8 * r * x) * L - 2 * (1 - x) * (1 - 4 * r) * P.w), "radiation off a fermion pair")


@contract("K13", [FSR + "__dnde_xx_to_s_to_pipig", FSR + "dnde_xx_to_s_to_pipig"], **INSIDE, **NONNEG)
def scalar_pion_radiation(C, P):
    m = any_model(C, P)
    a = C.mod("hazma.parameters").alpha_em
    e, x, r, L = inside(C, P)
    C.patch(FSR.replace(":", ".") + "mpi", P.mu * P.Q)
    f = m.dnde_xx_to_s_to_pipig(e, P.Q)
    C.eq(m.dnde_xx_to_s_to_pipig(C.np.array([e]), P.Q)[0], f, "arrays agree with single energies")
    if 2 * P.mx < P.Q:
        C.eq(f * C.pi * e * C.sqrt(1 - 4 * r), 2 * a * ((1 - x - 2 * r) * L - (1 - x) * P.w), "radiation off a pion pair")


@contract("K13", [FSR + "__dnde_xx_to_s_to_ffg", FSR + "__dnde_xx_to_s_to_pipig"], params=dict(mx=M, Q=CM, e=E, mf=Real(0, None, samp=(0.5, 120.0))), **NONNEG)
def scalar_no_radiation(C, P):
    m = any_model(C, P)
    mpi = C.mod("hazma.parameters").charged_pion_mass
    if outside(P, P.mf):
        C.eq(m.dnde_xx_to_s_to_ffg(P.e, P.Q, P.mf), 0.0, "no radiation outside of phase space")
    if outside(P, mpi):
        C.eq(m.dnde_xx_to_s_to_pipig(P.e, P.Q), 0.0, "no radiation outside of phase space")
