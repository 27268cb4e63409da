"""Final-state radiation: splitting functions and radiative matrix elements."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Either, Bool
PROPS = ["K09"]
AP = "hazma.spectra.altarelli_parisi"
FS = "hazma.spectra._fsr"
U = "hazma.utils"
KIND = Choice("fermion", "scalar")
X = Real(0, None, samp=(0.01, 1.05))
S = Real(0, None, samp=(0.5, 30.0))
M = Real(0, None, samp=(0.02, 0.6))
QD, QC = Choice(True, False), Real(-2, 2)


def split(kind, x):
    if kind == "fermion":
        return (1 + (1 - x) ** 2) / x
    return 2 * (1 - x) / x


def per_particle(C, kind, x, s, m, q):
    """number of photons per scaled energy off one particle of charge q"""
    alpha = C.mod("hazma.parameters").alpha_em
    arg = s * (1 - x) / m ** 2
    on = arg > C.exp(1)
    val = q ** 2 * alpha / (2 * C.pi) * split(kind, x) * (C.log(C.np.where(on, arg, 1 + 0 * arg)) - 1)
    return C.np.where(on, val, 0 * val)


@contract("K09", [AP + ":dndx_photon_ap_fermion", AP + ":dndx_photon_ap_scalar", AP + ":dnde_photon_ap_fermion", AP + ":dnde_photon_ap_scalar"],
          params=dict(kind=KIND, x=Arr(X, minlen=1), s=S, m=M, qd=QD, q=QC))
def splitting(C, P):
    mod = C.mod(AP)
    k = {} if P.qd else dict(charge=P.q)
    q = 1 if P.qd else P.q
    r = getattr(mod, "dndx_photon_ap_" + P.kind)(P.x, P.s, P.m, **k)
    C.eq(r, per_particle(C, P.kind, P.x, P.s, P.m, q), "splitting function times collinear logarithm, zero beyond it")
    C.le(0 * P.x, r, "never negative")
    C.eq(C.np.where(P.x >= 1, r, 0 * r), 0 * P.x, "nothing above the maximal energy")
    e = P.x * C.sqrt(P.s) / 2
    C.eq(getattr(mod, "dnde_photon_ap_" + P.kind)(e, P.s, P.m, **k), 2 / C.sqrt(P.s) * r, "per unit of photon energy")


@contract("K09", [AP + ":dndx_photon_ap_fermion", AP + ":dndx_photon_ap_scalar", AP + ":dnde_photon_ap_fermion", AP + ":dnde_photon_ap_scalar"],
          params=dict(kind=KIND, x=X, s=S, m=M, qd=QD, q=QC))
def splitting_scalar(C, P):
    mod = C.mod(AP)
    k = {} if P.qd else dict(charge=P.q)
    q = 1 if P.qd else P.q
    w = per_particle(C, P.kind, P.x, P.s, P.m, q)
    C.eq(getattr(mod, "dndx_photon_ap_" + P.kind)(P.x, P.s, P.m, **k), w, "one energy")
    e = P.x * C.sqrt(P.s) / 2
    C.eq(getattr(mod, "dnde_photon_ap_" + P.kind)(e, P.s, P.m, **k), 2 / C.sqrt(P.s) * w, "one photon energy")


@contract("K09", [U + ":dnde_altarelli_parisi_fermion", U + ":dnde_altarelli_parisi_scalar"],
          params=dict(kind=KIND, x=X, xs=Arr(X, minlen=1), q=Real(0, None, samp=(0.5, 5.0)), m=M))
def pair_radiation(C, P):
    f = getattr(C.mod(U), "dnde_altarelli_parisi_" + P.kind)
    for x in (P.x, P.xs):
        C.eq(f(x * P.q / 2, P.q, P.m), 2 * 2 / P.q * per_particle(C, P.kind, x, P.q ** 2, P.m, 1), "both particles of the pair radiate")


# --- radiative matrix elements ---------------------------------------------

def lam(a, b, c):
    return (a - b - c) ** 2 - 4 * b * c


def dot(p, i, j):
    return p[0, i] * p[0, j] - p[1, i] * p[1, j] - p[2, i] * p[2, j] - p[3, i] * p[3, j]


# Rational kinematics: with momentum p and rapidity factors u, v > 1 every pair
# of masses and every energy above threshold is reached by
#   E1 = p (u + 1/u) / 2,  m1 = p (u - 1/u) / 2,  ... (v for particle 2),
# and with t > 1 the total energy q = w t leaves the photon w (t - 1/t) / 2.
# p = 2 u v t k removes the denominators;  u = 1 + a, v = 1 + b, t = 1 + d.
U1 = Real(0, None, samp=(0.1, 2.0))
KIN = dict(k=Real(0, None, samp=(5.0, 100.0)), a=U1, b=U1, d=Real(0, None, samp=(0.05, 1.5)))


def kin(P):
    """masses, energies and momentum of the pair"""
    u, v, k = 1 + P.a, 1 + P.b, P.k * (1 + P.d)
    return k * v * (u * u - 1), k * u * (v * v - 1), k * v * (u * u + 1), k * u * (v * v + 1), 2 * k * u * v


def halves(C, f):
    return C.integral(f, -1, 0) + C.integral(f, 0, 1)


def volume(C, s, m1, m2):
    return C.sqrt(lam(s, m1 ** 2, m2 ** 2)) / (16 * C.pi * s)


@contract("K09", [FS + ":dnde_photon_fsr"], params=dict(KIN, f=Fn(6, 0), g=Fn(1, 0), how=Choice("auto", "quad")))
def radiation_pair(C, P):
    """photon and pair at total energy q, the pair at its reduced energy w:
    dN/dE = E/(4 pi^2) Phi(w) / Phi(q) * <|M|^2> / <|M0|^2>, every momentum on
    shell, in the frame of the pair"""
    m1, m2, e1, e2, p = kin(P)
    t = 1 + P.d
    w0 = P.k * ((1 + P.b) * ((1 + P.a) ** 2 + 1) + (1 + P.a) * ((1 + P.b) ** 2 + 1))
    w, q, e, k = w0 * t, w0 * t * t, w0 * (t * t - 1) / 2, w0 * (t * t - 1) * t / 2

    def msq(v):
        return P.f(dot(v, 0, 0), dot(v, 1, 1), dot(v, 0, 1), dot(v, 2, 2), dot(v, 0, 2), dot(v, 1, 2))

    def rad(c):
        return P.f(m1 ** 2, m2 ** 2, e1 * e2 + p ** 2, 0, k * (e1 - p * c), k * (e2 + p * c))

    def non(v):
        return P.g(v[3, 0] / C.sqrt(v[1, 0] ** 2 + v[2, 0] ** 2 + v[3, 0] ** 2))
    r = C.mod(FS).dnde_photon_fsr(e, q, [m1, m2], msq, non, method=P.how)
    num = e / (4 * C.pi ** 2) * (2 * p / (16 * C.pi * w)) * halves(C, rad)
    C.eq(r.dnde, num / (volume(C, q * q, m1, m2) * halves(C, P.g)), "ratio of phase-space integrals", tol=1e-4)


def outside(P):
    m1, m2, e1, e2, _ = kin(P)
    q = e1 + e2
    return (P.e <= 0) | (q * (q - 2 * P.e) <= (m1 + m2) ** 2)


@contract("K09", [FS + ":dnde_photon_fsr"], params=dict(KIN, e=Real(samp=(-5.0, 2000.0)), f=Fn(6, 0), c=Real(0, None), how=Choice("auto", "quad")), requires=outside)
def radiation_outside(C, P):
    """no photon outside the kinematic range"""
    m1, m2, e1, e2, _ = kin(P)
    r = C.mod(FS).dnde_photon_fsr(P.e, e1 + e2, (m1, m2), lambda v: P.f(v[0, 0], v[1, 1], v[3, 0], v[0, 2], v[1, 2], v[3, 2]), lambda v: P.c, method=P.how)
    C.eq(r.dnde, 0.0, "nothing outside the kinematic range")


@contract("K09", [FS + ":dnde_photon_fsr"], params=dict(q=S, m1=M, m2=M, m3=M, f=Fn(2, 0), g=Fn(1, 0), n=Int(2, None, samp=(3, 9)), k=Choice(2, 3), bad=Choice("hist", "QUAD", "")),
          requires=lambda P: P.q > P.m1 + P.m2 + P.m3)
def radiation_errors(C, P):
    F = C.mod(FS).dnde_photon_fsr
    ms = [P.m1, P.m2, P.m3][:P.k]
    one = lambda v: 1.0
    C.raises(ValueError, lambda: F(P.m1, P.q, [P.m1], one, one), "a pair at least")
    C.raises(ValueError, lambda: F(P.m1, P.q, ms, one, one, method=P.bad), "unknown method")
    C.raises(C.mod("hazma.hazma_errors").RamboCMETooSmall, lambda: F(P.m1, sum(ms), ms, one, one), "closed channel")
    C.raises(ValueError, lambda: F(P.m1, P.q, [P.m1, P.m2, P.m3], one, one, method="quad"), "quadrature needs a pair")
    C.raises(ValueError, lambda: F(P.m1, P.q, ms, one, one, method="rambo", npts=1), "a sample has no spread")
