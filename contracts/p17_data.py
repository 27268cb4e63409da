"""Targets, backgrounds, measured fluxes, instruments, black holes, unit constants."""
import math
import os
from vc.api import contract, Real, Int, Arr, Fn, Choice, Bool
PROPS = ["K17"]
GP = "hazma.gamma_ray_parameters"
POS = Real(0, None, samp=(0.3, 3.0))
EN = Real(0, None, samp=(0.3, 30.0))
N = Int(1, None, samp=(1, 5))
DATA = os.path.join(os.environ.get("VC_REPO", "/repo"), "hazma", "gamma_ray_data")


def table(*rel):
    import numpy as np
    return np.genfromtxt(os.path.join(DATA, *rel), delimiter=",", unpack=True)


# --- measured fluxes -------------------------------------------------------

@contract("K17", ["hazma.flux_measurement:FluxMeasurement.__init__"], params=dict(n=N, lo=Arr(EN, shape=("n",)), w=Arr(POS, shape=("n",)), f=Arr(POS, shape=("n",)), up=Arr(POS, shape=("n",)), dn=Arr(POS, shape=("n",)), p=Choice(None, 0, 1, 2, 3)))
def flux_measurement(C, P):
    hi = P.lo + P.w
    f, up, dn = P.f + 0, P.f + P.up, P.f - P.dn
    keep = ((f + 0), (up + 0), (dn + 0), (P.lo + 0), (hi + 0))
    res, target = object(), object()
    k = {} if P.p is None else dict(power=P.p)
    m = C.mod("hazma.flux_measurement").FluxMeasurement(P.lo, hi, f, up, dn, res, target, **k)
    e = ((P.lo + hi) / 2) ** (2 if P.p is None else P.p)
    C.eq(m.fluxes * e, P.f, "flux: the tabulated values are multiplied by a power of the bin centre")
    C.eq(m.upper_errors * e, P.up, "upper error: distance from the flux to the upper end")
    C.eq(m.lower_errors * e, P.dn, "lower error: distance from the lower end to the flux")
    C.eq(m.e_lows, P.lo, "lower edges")
    C.eq(m.e_highs, hi, "upper edges")
    C.true(m.energy_res is res and m.target is target, "resolution and target")
    for a, b in zip((f, up, dn, P.lo, hi), keep):
        C.eq(a, b, "the arrays handed in are left alone")


OBS = Choice("comptel", "egret", "fermi", "integral")


@contract("K17", ["hazma.flux_measurement:FluxMeasurement.from_file", GP + ":_generate_flux_measurement"], params=dict(which=OBS))
def shipped_measurements(C, P):
    mod = C.mod(GP)
    m = getattr(mod, P.which + "_diffuse")
    lo, hi, f, up, dn = table("obs", P.which + "_diffuse.dat")
    C.true(m.target is getattr(mod, P.which + "_diffuse_target"), "target of the instrument")
    C.true(m.energy_res is getattr(mod, "energy_res_" + P.which), "resolution of the instrument")
    C.true(len(m.fluxes) == len(lo), "every bin of the file")
    for k in range(len(lo)):
        e = (lo[k] + hi[k]) / 2
        C.eq(m.e_lows[k], lo[k], "lower edges", tol=1e-9)
        C.eq(m.e_highs[k], hi[k], "upper edges", tol=1e-9)
        C.close(m.fluxes[k] * e ** 2, f[k], 1e-9, "fluxes times energy squared")
        C.close((m.fluxes[k] + m.upper_errors[k]) * e ** 2, up[k], 1e-9, "upper ends of the error bars")
        C.close((m.fluxes[k] - m.lower_errors[k]) * e ** 2, dn[k], 1e-9, "lower ends of the error bars")


# --- backgrounds -----------------------------------------------------------

@contract("K17", ["hazma.background_model:BackgroundModel.dPhi_dEdOmega", "hazma.background_model:BackgroundModel.__init__"], params=dict(f=Fn(1), e=EN, es=Arr(EN, minlen=1), lo=EN, w=POS))
def background(C, P):
    b = C.mod("hazma.background_model").BackgroundModel([P.lo, P.lo + P.w], P.f)
    C.eq(b.dPhi_dEdOmega(P.e), P.f(P.e), "background at an energy")
    C.eq(b.dPhi_dEdOmega(P.es), C.each(P.f, P.es), "background at many energies")
    C.eq(b.e_range[0], P.lo, "lowest energy")
    C.eq(b.e_range[1], P.lo + P.w, "highest energy")


@contract("K17", [GP + ":gecco_bg_model", GP + ":default_bg_model"], params=dict(e=EN))
def simple_backgrounds(C, P):
    mod = C.mod(GP)
    C.close(mod.default_bg_model.dPhi_dEdOmega(P.e) * P.e ** 2, 2.74e-3, 1e-12, "power-law background of 1504.04024")
    C.close(mod.gecco_bg_model.dPhi_dEdOmega(P.e) * P.e ** 2, 8e-3, 1e-12, "twice the extragalactic background")
    g = mod.GeccoBackgroundModel()
    C.eq(g.dPhi_dEdOmega(P.e), mod.gecco_bg_model.dPhi_dEdOmega(P.e), "the parametric form has the same defaults")


def gradient(C, M, names, given, e):
    """derivatives and params agree with the model itself"""
    m = M(**given)
    for k in names:
        C.eq(m.params[k], given[k], "parameters are reported under their own names")
        C.eq(getattr(m, k), given[k], "parameters are reported under their own names")
    C.true(sorted(m.params) == sorted(names), "every parameter is reported")
    d = m.derivatives(e)
    C.true(sorted(d) == sorted(names), "a derivative for every parameter")
    for k in names:
        C.eq(d[k], C.diff(lambda x, k=k: M(**dict(given, **{k: x})).dPhi_dEdOmega(e), given[k]), "derivative of the background by its parameter")
    return m


@contract("K17", [GP + ":GeccoBackgroundModel.derivatives", GP + ":GeccoBackgroundModel.dPhi_dEdOmega"], params=dict(e=EN, amplitude=POS, power_law_index=POS))
def gecco_background(C, P):
    given = dict(amplitude=P.amplitude, power_law_index=P.power_law_index)
    m = gradient(C, C.mod(GP).GeccoBackgroundModel, list(given), given, P.e)
    C.eq(m.dPhi_dEdOmega(P.e), P.amplitude * P.e ** (-P.power_law_index), "power law")


GAL = ["galactic_amplitude", "galactic_power_law_index", "galactic_exponential_cutoff", "galactic_exponential_index", "extra_galactic_amplitude", "extra_galactic_power_law_index"]


@contract("K17", [GP + ":GalacticCenterBackgroundModel.derivatives", GP + ":GalacticCenterBackgroundModel.dPhi_dEdOmega", GP + ":GalacticCenterBackgroundModel.params"], params=dict({k: POS for k in GAL}, e=EN))
def galactic_background(C, P):
    given = {k: getattr(P, k) for k in GAL}
    m = gradient(C, C.mod(GP).GalacticCenterBackgroundModel, GAL, given, P.e)
    g = P.galactic_amplitude * P.e ** (-P.galactic_power_law_index) * C.exp(-(P.e / P.galactic_exponential_cutoff) ** P.galactic_exponential_index)
    C.eq(m.dPhi_dEdOmega(P.e), g + P.extra_galactic_amplitude * P.e ** (-P.extra_galactic_power_law_index), "cut-off galactic plus extragalactic power laws")


# --- instruments -----------------------------------------------------------

AREAS = Choice("adept", "amego", "comptel", "all_sky_astrogam", "e_astrogam", "egret", "fermi", "gecco", "grams", "grams_upgrade", "mast", "pangu")
FWHM = 1 / (2 * math.sqrt(2 * math.log(2)))
FLAT = {"adept": 0.3 * FWHM, "comptel": 0.05 * FWHM, "egret": 0.18 * FWHM, "fermi": 0.075, "grams": 0.05, "grams_upgrade": 0.05, "pangu": 0.4}
TABLED = {"amego": ("amego", 1), "all_sky_astrogam": ("e_astrogam", 1), "e_astrogam": ("e_astrogam", 1), "gecco": ("gecco", FWHM), "gecco_large": ("gecco_large", 1), "integral": ("integral", 1), "mast": ("mast", 1)}


@contract("K17", [GP + ":effective_area_%s" % k for k in AREAS.options] + [GP + ":_generate_interp"], params=dict(which=AREAS))
def effective_areas(C, P):
    mod = C.mod(GP)
    f = getattr(mod, "effective_area_" + P.which)
    x, y = table("A_eff", P.which + ".dat")
    C.true(len(f.x) == len(x), "every row of the table")
    for i in range(len(x)):
        C.close(f.x[i], x[i], 1e-9, "energies of the table")
        if list(x).count(x[i]) == 1:
            C.close(f(x[i]), y[i], 1e-9, "areas of the table at its energies")
    for i in range(len(x) - 1):
        if x[i + 1] > x[i]:
            C.close(f((x[i] + x[i + 1]) / 2), (y[i] + y[i + 1]) / 2, 1e-9, "linear in between")
    C.close(f(0.9 * min(x)), 0.0, 1e-9, "no area below the table")
    C.close(f(1.1 * max(x)), 0.0, 1e-9, "no area above the table")


@contract("K17", [GP + ":energy_res_%s" % k for k in FLAT], params=dict(which=Choice(*FLAT), e=EN, es=Arr(EN, minlen=1)))
def flat_resolutions(C, P):
    f = getattr(C.mod(GP), "energy_res_" + P.which)
    C.close(f(P.e), FLAT[P.which], 1e-9, "relative resolution of the instrument")
    C.eq(f(P.es), C.each(lambda e: f(e), P.es), "an entry per energy")


@contract("K17", [GP + ":energy_res_%s" % k for k in TABLED], params=dict(which=Choice(*TABLED)))
def tabled_resolutions(C, P):
    f = getattr(C.mod(GP), "energy_res_" + P.which)
    name, s = TABLED[P.which]
    x, y = table("energy_res", name + ".dat")
    for i in range(len(x)):
        C.close(f(x[i]), s * y[i], 1e-9, "resolutions of the table at its energies")
    for i in range(len(x) - 1):
        C.close(f((x[i] + x[i + 1]) / 2), s * (y[i] + y[i + 1]) / 2, 1e-9, "linear in between")


# --- targets ---------------------------------------------------------------

@contract("K17", [GP + ":solid_angle_cone"], params=dict(r=Real(0, 180, samp=(1, 90))))
def cone(C, P):
    C.eq(C.mod(GP).solid_angle_cone(P.r), 4 * C.pi * (1 - C.np.cos(P.r * C.pi / 360) ** 2), "solid angle inside a cone of that radius in degrees: 2 pi (1 - cos)")


@contract("K17", ["hazma.target_params:TargetParams.__init__"], params=dict(J=POS, D=POS, w=POS, vx=POS))
def target_fields(C, P):
    T = C.mod("hazma.target_params").TargetParams
    t = T(J=P.J, D=P.D, dOmega=P.w, vx=P.vx)
    C.eq(t.J, P.J, "annihilation factor")
    C.eq(t.D, P.D, "decay factor")
    C.eq(t.dOmega, P.w, "solid angle")
    C.eq(t.vx, P.vx, "relative velocity")
    C.close(T().vx, 1e-3, 1e-12, "relative velocity in units of the speed of light by default")
    C.true(T().J is None and T().D is None and T().dOmega is None, "unset by default")


REGIONS = {"1 arcmin cone": 1 / 60, "2 deg cone": 2.0, "5 deg cone": 5.0, "10 deg cone": 10.0}


@contract("K17", [GP + ":gc_targets"], params=dict(which=Choice("gc_targets", "gc_targets_optimistic", "draco_targets", "m31_targets", "fornax_targets")))
def target_tables(C, P):
    for profile in getattr(C.mod(GP), P.which).values():
        for region, t in profile.items():
            w = t.dOmega
            if region in REGIONS:
                r = math.radians(REGIONS[region])
                C.close(w, 2 * math.pi * (1 - math.cos(r)), 3e-3, "solid angle of the cone")
            elif region == "10x10 deg box":
                C.close(w, math.radians(10) * 2 * math.sin(math.radians(5)), 3e-3, "solid angle of the box")


# --- black holes -----------------------------------------------------------

KINDS = {"primary": ("pbh_primary_spectra_bh.csv", dict(spectrum_kind="primary")), "secondary": ("pbh_secondary_spectra.csv", dict(spectrum_kind="secondary")),
         "secondary_bh": ("pbh_secondary_spectra_bh.csv", dict(spectrum_kind="secondary", bh_secondary=True)), "default": ("pbh_secondary_spectra.csv", {})}


def pbh_file(C, name):
    rows = open(os.path.join(os.environ.get("VC_REPO", "/repo"), "hazma", "pbh_data", name)).read().split()
    head = [s.split("e") for s in rows[0].split(",")[2:]]
    grams = [float(s[0]) * C.exact(10) ** float(s[1]) if len(s) == 2 and "." in s[1] else float("e".join(s)) for s in head]
    return grams, [[float(s) for s in r.split(",")[1:]] for r in rows[1:]]


@contract("K17", ["hazma.pbh:PBH._load_spec_data", "hazma.pbh:PBH.mx", "hazma.pbh:PBH._decay_widths"], params=dict(kind=Choice(*KINDS), f=POS))
def evaporation(C, P):
    name, k = KINDS[P.kind]
    grams, rows = pbh_file(C, name)
    masses = [g * C.mod("hazma.parameters").g_to_MeV for g in grams]
    B = C.mod("hazma.pbh").PBH
    p = B(masses[0], f_pbh_dummy=P.f, **k)
    for i in (0, 3, len(grams) // 2, len(grams) - 1, 1):
        p.mx = masses[i]
        C.eq(p.mx, masses[i], "mass that was set")
        C.eq(p.decay_widths()["total"], P.f, "the fraction plays the part of the width")
        for j in (0, 7, len(rows) // 2, len(rows) - 1):
            e = rows[j][0] * 1e3
            if j < len(rows) - 1:
                e = (rows[j][0] + rows[j + 1][0]) / 2 * 1e3
                d = (rows[j][1 + i] + rows[j + 1][1 + i]) / 2
                C.close(p.total_spectrum(C.np.array([e]))[0], d * 1e-3, 1e-6, "spectrum of that mass, per MeV, linear between the energies of the table")
        C.close(p.total_spectrum(C.np.array([2e3 * rows[-1][0]]))[0], 0.0, 1e-6, "no spectrum outside the table")
    C.raises(Exception, lambda: setattr(p, "mx", 1.5 * masses[-1]), "masses that are not tabulated are rejected")
    C.raises(Exception, lambda: setattr(p, "spectrum_kind", "primary"), "the kind of spectrum is fixed")
    C.raises(Exception, lambda: B(masses[0], spectrum_kind="tertiary"), "unknown kinds are rejected")


# --- constants -------------------------------------------------------------

PA = "hazma.parameters"


@contract("K17", [PA + ":convert_sigmav"], params=dict(sv=Real(samp=(-3, 3))))
def cross_section_units(C, P):
    f = C.mod(PA).convert_sigmav
    C.eq(f(f(P.sv, "MeV^-2"), "cm^3 / s"), P.sv, "the conversions are inverse to each other")
    C.close(C.number(f(1.0, "cm^3 / s")) / C.number(C.mod(PA).sv_inv_MeV_to_cm3_per_s), 1.0, 5e-3, "both conversions of the package agree")


@contract("K17", [PA + ":g_to_MeV", PA + ":cm_to_inv_MeV", PA + ":sv_inv_MeV_to_cm3_per_s"], params={})
def unit_constants(C, P):
    p = C.mod(PA)
    e, c, hbar = 1.602176634e-19, 299792458.0, 6.62607015e-34 / (2 * math.pi)
    mev = 1e6 * e
    C.close(p.g_to_MeV, 1e-3 * c * c / mev, 1e-9, "a gram in MeV")
    C.close(p.MeV_to_g, mev / (1e-3 * c * c), 1e-9, "a MeV in grams")
    C.close(p.s_to_inv_MeV, mev / hbar, 1e-9, "a second in 1/MeV")
    C.close(p.m_to_inv_MeV, mev / (hbar * c), 1e-9, "a metre in 1/MeV")
    C.close(p.cm_to_inv_MeV, 1e-2 * mev / (hbar * c), 1e-9, "a centimetre in 1/MeV")
    C.close(p.sv_inv_MeV_to_cm3_per_s, (hbar * c / mev * 1e2) ** 2 * c * 1e2, 1e-9, "cross section times velocity, 1/MeV^2 to cm^3/s")
    C.close(p.Msun_to_g * p.g_to_Msun, 1.0, 1e-9, "solar masses")
    C.close(p.qe ** 2, 4 * math.pi / 137.04, 1e-9, "electric charge")
    C.close(p.sin_theta_weak ** 2 + p.cos_theta_weak ** 2, 1.0, 1e-9, "weak mixing angle")
    C.close(p.Qu - p.Qd, 1.0, 1e-9, "quark charges")
    mass = p.standard_model_masses
    for k, v in dict(e=p.electron_mass, mu=p.muon_mass, tau=p.tau_mass, pi=p.charged_pion_mass, pi0=p.neutral_pion_mass, k=p.charged_kaon_mass, k0=p.neutral_kaon_mass, kl=p.long_kaon_mass, ks=p.short_kaon_mass,
                     eta=p.eta_mass, etap=p.eta_prime_mass, rho=p.rho_mass, omega=p.omega_mass, phi=p.phi_mass, u=p.up_quark_mass, d=p.down_quark_mass, s=p.strange_quark_mass, c=p.charm_quark_mass, b=p.bottom_quark_mass, t=p.top_quark_mass,
                     h=p.higgs_mass).items():
        C.eq(mass[k], v, "the table of masses agrees with the constants")


@contract("K17", [PA + ":_ckm_wolfenstein"], params=dict(lam=Real(0.05, 0.5), a=Real(0.3, 1.2), rho=Real(-0.5, 0.5), eta=Real(-0.5, 0.5)))
def ckm(C, P):
    V = C.mod(PA)._ckm_wolfenstein(P.lam, P.a, P.rho, P.eta)
    for i in range(3):
        for j in range(3):
            z = sum((V[i, k] * C.np.conj(V[j, k]) for k in range(3)), 0)
            C.eq(C.np.real(z), 1 if i == j else 0, "unitary")
            C.eq(C.np.imag(z), 0, "unitary")
    # the definitions of the four parameters
    u = C.np.abs
    C.eq(u(V[0, 1]) ** 2, P.lam ** 2 * (u(V[0, 0]) ** 2 + u(V[0, 1]) ** 2), "lambda: |Vus| over the first two entries of the first row")
    C.eq(u(V[1, 2]) ** 2, (P.a * P.lam * P.lam) ** 2 * (u(V[0, 0]) ** 2 + u(V[0, 1]) ** 2), "A: |Vcb| over |Vus|")
    w = -(V[0, 0] * C.np.conj(V[0, 2]))
    d = V[1, 0] * C.np.conj(V[1, 2])
    C.eq(C.np.real(w), P.rho * C.np.real(d) - P.eta * C.np.imag(d), "rho-bar + i eta-bar: apex of the unitarity triangle")
    C.eq(C.np.imag(w), P.rho * C.np.imag(d) + P.eta * C.np.real(d), "rho-bar + i eta-bar: apex of the unitarity triangle")
