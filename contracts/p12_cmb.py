"""CMB limits: efficiencies of annihilation products."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Keyed
PROPS = ["K12"]
TC = "hazma.theory._theory_cmb:TheoryCMB."
LC = "hazma.limits._cmb:CMBLimit."
MX = Real(0, None, samp=(5.0, 400.0))
E = Real(0, None, samp=(0.5, 300.0))
KD = Real(0, None, samp=(1e-6, 1e-3))
BF = Real(0, None, closed=True, samp=(0.0, 1.0))
EMIN = Real(0, None, samp=(0.1, 2.0))
EFF = Fn(1, 0, 1)
LINES = Keyed(BF, extra=("g g", "e e"))
ENERGIES = Keyed(E, extra=("g g", "e e"))


def velocity(C, mx, x_kd):
    """relative velocity at recombination: inversely proportional to the mass and to the root of the decoupling temperature"""
    return C.q(2) / 1000 * (C.mod("hazma.parameters").temp_cmb_formation * 10 ** 6) / mx * C.sqrt(C.q(1) / 10000 / x_kd)


@contract("K12", ["hazma.cmb:vx_cmb", LC + "vx_cmb"], params=dict(mx=MX, x_kd=KD))
def relative_velocity(C, P):
    v = velocity(C, P.mx, P.x_kd)
    C.eq(C.mod("hazma.cmb").vx_cmb(P.mx, P.x_kd), v, "relative velocity at recombination")
    C.eq(C.mod("hazma.limits").CMBLimit.vx_cmb(P.mx, P.x_kd), v, "relative velocity at recombination, limits package")


class Efficiency:
    def __init__(self, f, x0):
        self.f, self.x = f, [x0, 1e9]

    def __call__(self, e):
        return self.f(e)


def efficiency(C, P, e_cm, base, e0, dnde, n, lines, fs):
    """energy-weighted integral of the spectrum over the energy released, plus the lines above the lowest tabulated energy"""
    cont = C.integral(lambda e: e * n * dnde(e, e_cm) * base(e), e0, e_cm / 2)
    tot = C.total(lines, lambda k, l: C.ite(l["energy"] > e0, l["energy"] * l["bf"] * base(l["energy"]) * (2.0 if k == fs else 1.0), 0.0))
    return (cont + tot) / e_cm


PAR = dict(mx=MX, x_kd=KD, dnde=Fn(2), pos=Fn(2), fg=EFF, fe=EFF, g0=EMIN, e0=EMIN, gb=LINES, eb=LINES, ge=ENERGIES, ee=ENERGIES, p=Real(0, None, samp=(0.1, 2.0)))


class Spectra:
    """photon and positron spectra and lines of any annihilating model"""

    def setup(self, C, P):
        self.mx = P.mx
        self.C, self.P = C, P
        self.asked = []

    def _lines(self, e_cm, bf, energy):
        self.asked.append(e_cm)
        return self.C.entries(bf, lambda k, b: {"energy": energy[k], "bf": b})

    def gamma_ray_lines(self, e_cm):
        return self._lines(e_cm, self.P.gb, self.P.ge)

    def positron_lines(self, e_cm):
        return self._lines(e_cm, self.P.eb, self.P.ee)

    def total_spectrum(self, es, e_cm):
        return self.P.dnde(es, e_cm)

    def total_positron_spectrum(self, es, e_cm):
        return self.P.pos(es, e_cm)


def expected(C, P, m):
    e_cm = 2 * P.mx * (1 + velocity(C, P.mx, P.x_kd) ** 2 / 2)
    fg = efficiency(C, P, e_cm, P.fg, P.g0, P.dnde, 1, m.gamma_ray_lines(e_cm), "g g")
    fe = efficiency(C, P, e_cm, P.fe, P.e0, P.pos, 2, m.positron_lines(e_cm), "e e")
    return e_cm, fg, fe


def claims(C, P, m, fg, fe, f, limit):
    e_cm, g, e = expected(C, P, m)
    m.asked.clear()
    C.eq(fg(), g, "photon efficiency", tol=5e-3)
    C.eq(fe(), e, "positron efficiency: an electron for every positron", tol=5e-3)
    for a in m.asked:
        C.eq(a, e_cm, "lines at the centre-of-mass energy of the relative velocity")
    C.eq(f(), g + e, "efficiencies add up", tol=5e-3)
    C.eq(limit() * (g + e) / P.mx, P.p, "the limit saturates the bound on the annihilation parameter", tol=5e-3)


NZ = "the efficiency is not zero"


@contract("K12", [TC + "f_eff_g", TC + "f_eff_ep", TC + "f_eff", TC + "cmb_limit", TC + "_f_eff_helper"], params=PAR)
def theory_efficiencies(C, P):
    cmb = C.mod("hazma.cmb")
    th = C.mod("hazma.theory._theory_cmb")
    C.patch("hazma.cmb.f_eff_g", Efficiency(P.fg, P.g0))
    C.patch("hazma.cmb.f_eff_ep", Efficiency(P.fe, P.e0))

    class Model(Spectra, th.TheoryCMB):
        pass
    m = Model()
    m.setup(C, P)
    _, g, e = expected(C, P, m)
    C.assume(g + e > 0)
    claims(C, P, m, lambda: m.f_eff_g(P.x_kd), lambda: m.f_eff_ep(P.x_kd), lambda: m.f_eff(P.x_kd), lambda: m.cmb_limit(P.x_kd, P.p))


@contract("K12", [LC + "f_eff_g", LC + "f_eff_ep", LC + "f_eff", LC + "_constrain", LC + "_f_eff_helper", "hazma.limits._abstract:AbstractLimit.constrain"], params=PAR)
def limit_efficiencies(C, P):
    lc = C.mod("hazma.limits._cmb")
    C.patch("hazma.limits._cmb.f_eff_g", Efficiency(P.fg, P.g0))
    C.patch("hazma.limits._cmb.f_eff_ep", Efficiency(P.fe, P.e0))
    m = Spectra()
    m.setup(C, P)
    _, g, e = expected(C, P, m)
    C.assume(g + e > 0)
    L = lc.CMBLimit(x_kd=P.x_kd, p_ann=P.p)
    claims(C, P, m, lambda: L.f_eff_g(m), lambda: L.f_eff_ep(m), lambda: L.f_eff(m), lambda: L.constrain([m])[0])


@contract("K12", ["hazma.cmb:f_eff_g", "hazma.limits._cmb:f_eff_g"], params=dict(fs=Choice("g", "ep"), where=Choice("hazma.cmb:cmb_data", "hazma.limits._cmb:limits/data")))
def tables(C, P):
    import numpy as np
    import os
    name, folder = P.where.split(":")
    f = getattr(C.mod(name), "f_eff_" + P.fs)
    t = np.loadtxt(os.path.join(os.environ.get("VC_REPO", "/repo"), "hazma", folder, "f_eff_" + P.fs + ".dat"), delimiter=",").T
    C.true(len(f.x) == t.shape[1], "every tabulated energy is used")
    for k in range(t.shape[1]):
        C.eq(f.x[k] * 1000000, t[0][k], "tabulated energies, in MeV", tol=1e-9)
        C.eq(f.y[k], t[1][k], "tabulated efficiencies", tol=1e-9)
