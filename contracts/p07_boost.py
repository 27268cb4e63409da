"""Lorentz boosts of spectra."""
from vc.api import contract, Real, Int, Arr, Fn, Choice
PROPS = ["K07"]
B = "hazma.spectra.boost"
E0 = Real(0, None, samp=(20.0, 90.0))
MM = Real(0, None, closed=True, samp=(0.5, 15.0))
BETA = Real(0, 1, samp=(0.05, 0.95))


def gam(C, beta):
    return 1 / C.sqrt(1 - beta ** 2)


@contract("K07", [B + ":boost_delta_function"], params=dict(e=Real(0, None, samp=(10.0, 150.0)), e0=E0, m=MM, beta=BETA), requires=lambda P: [P.e0 > P.m, P.e >= P.m])
def line_becomes_box(C, P):
    r = C.mod(B).boost_delta_function(P.e, P.e0, P.m, P.beta)
    g = gam(C, P.beta)
    k = C.sqrt(P.e ** 2 - P.m ** 2)
    k0 = C.sqrt(P.e0 ** 2 - P.m ** 2)
    inside = C.and_(g * (P.e - P.beta * k) < P.e0, P.e0 < g * (P.e + P.beta * k))
    C.eq(r, C.ite(inside, 1 / (2 * g * P.beta * k0), 0.0), "box over the energies that reach the line, at unit area")


@contract("K07", [B + ":boost_delta_function"], params=dict(e=Real(0, None, samp=(10.0, 150.0)), e0=E0, beta=BETA))
def photon_box(C, P):
    r = C.mod(B).boost_delta_function(P.e, P.e0, 0.0, P.beta)
    g = gam(C, P.beta)
    lo, hi = g * P.e0 * (1 - P.beta), g * P.e0 * (1 + P.beta)
    # exactly at an end of the box the value is a convention
    if C.and_(lo < P.e, P.e < hi):
        C.eq(r * (hi - lo), 1.0, "unit area")
    elif C.or_(P.e < lo, hi < P.e):
        C.eq(r, 0.0, "nothing outside the box")


@contract("K07", [B + ":boost_delta_function"], params=dict(es=Arr(Real(0, None, samp=(1.0, 150.0))), e0=E0, m=MM, beta=Real(samp=(-0.3, 1.4))), requires=lambda P: P.e0 > P.m)
def box_domain(C, P):
    f = C.mod(B).boost_delta_function
    r = f(P.es, P.e0, P.m, P.beta)
    C.eq(r, C.each(lambda e: f(e, P.e0, P.m, P.beta), P.es), "arrays are elementwise")
    if C.or_(P.beta <= 0, P.beta >= 1):
        C.eq(r, 0 * P.es, "no physical boost, no box")
    else:
        C.eq(C.each(lambda e: C.ite(e < P.m, f(e, P.e0, P.m, P.beta), 0.0), P.es), 0 * P.es, "nothing below the mass")


def prim(C, z, m):
    """a primitive of 1/k in the energy (see `primitive`)"""
    k = C.sqrt(z ** 2 - m ** 2)
    if m > 0:
        return C.log((z + k) / (z - k)) / 2
    return C.log(z)


@contract("K07", [B + ":double_boost_delta_function"], params=dict(e=Real(0, None, samp=(10.0, 150.0)), e0=E0, m=MM, b1=BETA, b2=BETA), requires=lambda P: [P.e0 > P.m, P.e > P.m])
def two_boosts(C, P):
    r = C.mod(B).double_boost_delta_function(P.e, P.e0, P.m, P.b1, P.b2)
    g1, g2 = gam(C, P.b1), gam(C, P.b2)
    m = P.m
    k0, k = C.sqrt(P.e0 ** 2 - m ** 2), C.sqrt(P.e ** 2 - m ** 2)
    l1, l2 = g1 * (P.e0 - P.b1 * k0), g2 * (P.e - P.b2 * k)
    h1, h2 = g1 * (P.e0 + P.b1 * k0), g2 * (P.e + P.b2 * k)
    for x in (l1, l2, h1, h2):
        C.abstract(x, lambda v: [v >= m, v > 0])
    for x in (g1, g2, k0):
        C.abstract(x, lambda v: [v > 0])
    lo, hi = C.max(l1, l2), C.min(h1, h2)
    reach = C.and_(h2 > l1, l2 < h1)
    C.eq(r * (4 * g1 * g2 * P.b1 * P.b2 * k0), C.ite(reach, prim(C, hi, m) - prim(C, lo, m), 0.0), "box of the first boost, boosted again")


@contract("K07", [B + ":double_boost_delta_function"], params=dict(z=Real(0, None, samp=(20.0, 60.0)), m=MM), requires=lambda P: P.z > P.m)
def primitive(C, P):
    """the closed form used above is the integral of 1/k"""
    C.eq(C.diff(lambda z: prim(C, z, P.m), P.z), 1 / C.sqrt(P.z ** 2 - P.m ** 2), "derivative of the primitive is 1/k", tol=1e-4)


@contract("K07", [B + ":make_boost_function", B + ":dnde_boost"],
          params=dict(es=Arr(Real(0, None, samp=(1.0, 60.0))), m=MM, beta=Real(0.001, 1, samp=(0.05, 0.95)), f=Fn(2, 0), a=Real(), method=Choice("quad", "quadrature"), how=Choice(0, 1)))
def boosted_function(C, P):
    mod = C.mod(B)
    if P.how:
        r = mod.dnde_boost(P.f, P.es, P.beta, mass=P.m, method=P.method, args=(P.a,))
    else:
        r = mod.make_boost_function(P.f, P.m)(P.es, P.beta, method=P.method, args=(P.a,))
    g = gam(C, P.beta)

    def want(e):
        k = C.sqrt(C.max(e ** 2 - P.m ** 2, 0))
        v = C.integral(lambda z: P.f(z, P.a) / C.sqrt(z ** 2 - P.m ** 2), g * (e - P.beta * k), g * (e + P.beta * k)) / (2 * g * P.beta)
        return C.ite(e > P.m, v, 0.0)
    C.eq(r, C.each(want, P.es), "flat-angle average of the rest-frame spectrum", tol=1e-3)


@contract("K07", [B + ":make_boost_function"], params=dict(es=Arr(Real(0, None, samp=(20.0, 60.0))), m=Real(0, None, closed=True, samp=(0.5, 15.0)), beta=Real(0.001, 1, samp=(0.05, 0.9)), f=Fn(1, 0), n=Int(3, None, samp=(5, 12)),
                                                               simp=Choice(False, True)),
          requires=lambda P: [P.es[0] > P.m])
def sampled_boost(C, P):
    """fixed rules sample the same integrand between the same limits"""
    mod = C.mod(B)
    e = P.es[:1]
    r = mod.make_boost_function(P.f, P.m)(e, P.beta, method="simps" if P.simp else "trapz", npts=P.n)
    g = gam(C, P.beta)
    k = C.sqrt(e[0] ** 2 - P.m ** 2)
    zs = C.np.linspace(g * (e[0] - P.beta * k), g * (e[0] + P.beta * k), P.n)
    ys = P.f(zs) / C.sqrt(zs ** 2 - P.m ** 2)
    I = C.simpson(ys, zs) if P.simp else C.np.sum((ys[1:] + ys[:-1]) / 2 * (zs[1:] - zs[:-1]))
    C.eq(r[0], I / (2 * g * P.beta), "rule over the allowed rest-frame energies")


@contract("K07", [B + ":make_boost_function", B + ":dnde_boost_array"], params=dict(es=Arr(Real(0, None, samp=(20.0, 60.0)), increasing=True, minlen=2), m=MM, beta=Real(samp=(-0.5, 1.5)), f=Fn(2, 0), a=Real(), zero=Choice(True, False)))
def rest_and_unphysical(C, P):
    mod = C.mod(B)
    beta = 0.0 if P.zero else P.beta
    fn = mod.make_boost_function(P.f, P.m)
    tab = P.f(P.es, P.a)
    if P.zero:
        C.eq(fn(P.es, 0.0, args=(P.a,)), tab, "a parent at rest gives the rest-frame spectrum")
        C.eq(mod.dnde_boost_array(tab, P.es, 0.0, P.m), tab, "a parent at rest gives the rest-frame table")
    else:
        C.assume(C.or_(beta < 0, beta >= 1))
        C.eq(fn(P.es, beta, args=(P.a,)), 0 * P.es, "unphysical velocities give zero")
        C.eq(mod.dnde_boost_array(tab, P.es, beta, P.m), 0 * P.es, "unphysical velocities give a zero table")
    C.raises(ValueError, lambda: fn(P.es, 0.5, method="romberg"), "unknown rules are rejected")


@contract("K07", [B + ":dnde_boost_array"], params=dict(es=Arr(Real(0, None, samp=(20.0, 60.0)), increasing=True, minlen=2), m=MM, beta=Real(0.001, 1, samp=(0.05, 0.9)), f=Fn(1, 0)), requires=lambda P: P.m < P.es[0])
def boosted_table(C, P):
    mod = C.mod(B)
    IUS = C.mod("scipy.interpolate").InterpolatedUnivariateSpline
    tab = P.f(P.es)
    r = mod.dnde_boost_array(tab, P.es, P.beta, P.m)
    g = gam(C, P.beta)
    s = IUS(P.es, tab / C.sqrt(P.es ** 2 - P.m ** 2), ext=1, k=1)

    def want(e):
        k = C.sqrt(e ** 2 - P.m ** 2)
        return s.integral(g * (e - P.beta * k), g * (e + P.beta * k)) / (2 * g * P.beta)
    C.eq(r, C.each(want, P.es), "integral of the linear interpolant of the table")
