"""Three-body phase space."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Either, Bool
PROPS = ["K03"]
TB = "hazma.phase_space._three_body"
D = "hazma.phase_space._dist"
R = "hazma.phase_space._rambo"

M = Real(0, None, samp=(0.5, 150.0))
Q = Real(0, None, samp=(500.0, 2000.0))
QM = dict(q=Q, m1=M, m2=M, m3=M)


def above(P):
    return P.q > P.m1 + P.m2 + P.m3


def lam(a, b, c):
    return (a - b - c) ** 2 - 4 * b * c


def dalitz_y(C, q, x, m1, m2, m3):
    """limits of 2 E2/q at fixed 2 E1/q: the pair 23 recoils with energy
    q - E1, in its rest frame particle 2 has fixed energy and momentum"""
    s = q * q * (1 - x) + m1 ** 2
    mid = (q - x * q / 2) * (s + m2 ** 2 - m3 ** 2) / (2 * s)
    half = C.sqrt(lam(q * q, m1 ** 2, s) * lam(s, m2 ** 2, m3 ** 2)) / (4 * q * s)
    return 2 * (mid - half) / q, 2 * (mid + half) / q


def x_range(q, m1, m2, m3):
    return 2 * m1 / q, (q * q + m1 ** 2 - (m2 + m3) ** 2) / (q * q)


def mandelstam(q, x, y, m1, m2):
    return q * q * (1 - x) + m1 ** 2, q * q * (1 - y) + m2 ** 2


def dalitz(C, P, f):
    q, m1, m2, m3 = P.q, P.m1, P.m2, P.m3
    a, b = x_range(q, m1, m2, m3)

    def inner(x):
        lo, hi = dalitz_y(C, q, x, m1, m2, m3)
        return C.integral(lambda y: f(*mandelstam(q, x, y, m1, m2)), lo, hi)
    return q ** 2 / (128 * C.pi ** 3) * C.integral(inner, a, b)


@contract("K03", [TB + ":ThreeBody.integrate"], params=dict(QM, f=Fn(2, 0)), requires=above)
def dalitz_integral(C, P):
    tb = C.mod(TB).ThreeBody(P.q, (P.m1, P.m2, P.m3), P.f)
    C.eq(tb.integrate()[0], dalitz(C, P, P.f), "integral over the Dalitz region", tol=1e-4)
    tb = C.mod(TB).ThreeBody(P.q, [P.m1, P.m2, P.m3], P.f, "st")
    C.eq(tb.integrate(method="quad")[0], dalitz(C, P, P.f), "explicit signature", tol=1e-4)


@contract("K03", [TB + ":ThreeBody.integrate", TB + ":ThreeBody.cme", TB + ":ThreeBody.masses", TB + ":ThreeBody.msqrd"],
          params=dict(QM, f=Fn(2, 0), q2=Q, n1=M, n2=M, n3=M), requires=above)
def dalitz_setters(C, P):
    tb = C.mod(TB).ThreeBody(P.q2, (P.n1, P.n2, P.n3))
    C.eq(tb.msqrd(P.q2, P.n1), 1.0, "unit matrix element by default")
    C.eq(tb.cme, P.q2, "energy")
    C.eq(tb.masses, (P.n1, P.n2, P.n3), "masses")
    tb.cme = P.q
    tb.masses = (P.m1, P.m2, P.m3)
    tb.msqrd = P.f
    C.eq(tb.cme, P.q, "new energy")
    C.eq(tb.masses, (P.m1, P.m2, P.m3), "new masses")
    C.eq(tb.integrate()[0], dalitz(C, P, P.f), "new energy, masses and matrix element are used", tol=1e-4)


@contract("K03", [TB + ":ThreeBody.integrate"], params=QM, requires=above)
def dalitz_default(C, P):
    tb = C.mod(TB).ThreeBody(P.q, (P.m1, P.m2, P.m3))
    C.eq(tb.integrate()[0], dalitz(C, P, lambda s, t: 1.0), "flat matrix element", tol=1e-4)


@contract("K03", [TB + ":ThreeBody.integrate"], params=dict(QM, q=Real(0, None, samp=(5.0, 150.0)), f=Fn(2, 0), how=Choice("quad", "rambo")), requires=lambda P: P.q < P.m1 + P.m2 + P.m3)
def dalitz_closed(C, P):
    tb = C.mod(TB).ThreeBody(P.q, (P.m1, P.m2, P.m3), P.f)
    C.eq(tb.integrate(method=P.how), (0.0, 0.0), "closed below threshold")
    C.raises(ValueError, lambda: tb.invariant_mass_distributions(5, method=P.how), "no pair-mass spectrum below threshold")


@contract("K03", [TB + ":_msqrd_flat"], params=dict(a=Arr(), b=Real()))
def flat_matrix_element(C, P):
    f = C.mod(TB)._msqrd_flat
    C.eq(f(P.b, P.b), 1.0, "scalars")
    C.eq(f(P.a, P.b), 0 * P.a + 1, "array and scalar")
    C.eq(f(P.b, P.a), 0 * P.a + 1, "scalar and array")
    C.eq(f(P.a, P.a), 0 * P.a + 1, "arrays")


def region(P):
    """(s, t) is inside the Dalitz region"""
    q, m1, m2, m3, s, t = P.q, P.m1, P.m2, P.m3, P.s, P.t
    e1 = (q * q + m1 * m1 - s) / (2 * q)
    e2 = (q * q + m2 * m2 - t) / (2 * q)
    u = q * q + m1 * m1 + m2 * m2 + m3 * m3 - s - t
    dot = (2 * e1 * e2 - u + m1 * m1 + m2 * m2) / 2
    return [e1 > m1, e2 > m2, dot * dot <= (e1 * e1 - m1 * m1) * (e2 * e2 - m2 * m2)]


@contract("K03", [TB + ":ThreeBody.msqrd", TB + ":_mandelstam_to_momenta"],
          params=dict(QM, s=Real(0, None, samp=(1e4, 2e6)), t=Real(0, None, samp=(1e4, 2e6)), q2=Q, how=Choice(0, 1, 2, 3, 4)), requires=lambda P: [above(P)] + region(P), samples=400)
def dalitz_momenta(C, P):
    """a squared matrix element of the momenta sees on-shell, balanced momenta
    with the invariant masses of the point"""
    box = []

    def g(ps):
        box.append(ps)
        return 1.0
    if P.how:
        # in any order, or one of them alone
        tb = C.mod(TB).ThreeBody(P.q if P.how == 3 else P.q2, (P.m1, P.m2, P.m3) if P.how == 4 else (P.m2, P.m1, P.m3), g if P.how > 1 else lambda ps: 0.0, "momenta")
        if P.how != 3 and P.how != 2:
            tb.cme = P.q
        if P.how != 4:
            tb.masses = (P.m1, P.m2, P.m3)
        if P.how == 2:
            tb.cme = P.q
        if P.how == 1:
            tb.msqrd = g
    else:
        tb = C.mod(TB).ThreeBody(P.q, (P.m1, P.m2, P.m3), g, "momenta")
    C.eq(tb.msqrd(P.s, P.t), 1.0, "value is that of the given function")
    p = box[-1]
    C.shape(p, (4, 3), "one column per particle")
    if not C.symbolic:
        C.atol = 1e-7 * P.q ** 2
    sq = lambda v: v[0] * v[0] - v[1] * v[1] - v[2] * v[2] - v[3] * v[3]
    for j, m in enumerate((P.m1, P.m2, P.m3)):
        C.eq(sq(p[:, j]), m * m, "particle %d is on shell" % (j + 1))
    C.eq(p[0, 0] + p[0, 1] + p[0, 2], P.q, "energies add up")
    for k in (1, 2, 3):
        C.eq(p[k, 0] + p[k, 1] + p[k, 2], 0.0, "momentum %d balances" % k)
    C.eq(sq(p[:, 1] + p[:, 2]), P.s, "first invariant mass is that of particles 2 and 3")
    C.eq(sq(p[:, 0] + p[:, 2]), P.t, "second invariant mass is that of particles 1 and 3")


@contract("K03", [TB + ":ThreeBody._integration_bounds_s", TB + ":ThreeBody._integration_bounds_t", TB + ":ThreeBody._integration_bounds_x", TB + ":ThreeBody._integration_bounds_y"],
          params=dict(QM, s=Real(0, None, samp=(1e4, 1e6)), x=Real(0, 2, samp=(0.2, 0.9))),
          requires=lambda P: [above(P), P.s > (P.m2 + P.m3) ** 2, P.s < (P.q - P.m1) ** 2, 2 * P.m1 < P.x * P.q, P.x * P.q * P.q < P.q * P.q + P.m1 ** 2 - (P.m2 + P.m3) ** 2])
def dalitz_bounds(C, P):
    q, m1, m2, m3, s = P.q, P.m1, P.m2, P.m3, P.s
    tb = C.mod(TB).ThreeBody(q, (m1, m2, m3))
    C.eq(tb._integration_bounds_s(), ((m2 + m3) ** 2, (q - m1) ** 2), "range of the pair mass")
    C.eq(tb._integration_bounds_x(), x_range(q, m1, m2, m3), "range of the scaled energy")
    C.eq(tb._integration_bounds_y(P.x), dalitz_y(C, q, P.x, m1, m2, m3), "range of the second scaled energy", tol=1e-5)
    mid = m1 ** 2 + m3 ** 2 + (q * q - s - m1 * m1) * (s + m3 * m3 - m2 * m2) / (2 * s)
    half = C.sqrt(lam(q * q, m1 * m1, s) * lam(s, m2 * m2, m3 * m3)) / (2 * s)
    C.eq(tb._integration_bounds_t(s), (mid - half, mid + half), "range of the second pair mass", tol=1e-5)


def plain(orig, probabilities, edges):
    return probabilities


def hist(C, h, edges):
    return C.mod(D).normalize_distribution(h, edges)


def spectrum(C, P, i, e):
    """dGamma/dE_i up to the flux, at energy e"""
    q, m = P.q, (P.m1, P.m2, P.m3)
    m1, m2, m3 = m
    x = 2 * e / q
    pre = q / (64 * C.pi ** 3)
    f = P.f
    if i == 0:
        order, point = (m1, m2, m3), lambda y: (x, y)
    elif i == 1:
        order, point = (m2, m1, m3), lambda y: (y, x)
    else:
        order, point = (m3, m2, m1), lambda y: (2 - x - y, y)
    a, b = x_range(q, *order)

    lo, hi = dalitz_y(C, q, x, *order)
    v = pre * C.integral(lambda y: f(*mandelstam(q, *point(y), m1, m2)), lo, hi)
    return C.ite((x >= a) & (x <= b), v, 0.0)


NB = dict(QM, f=Fn(2, 0), nbins=Int(2, None, samp=(2, 5)))


@contract("K03", [TB + ":ThreeBody.energy_distributions"], uses={D + ":normalize_distribution": plain}, params=dict(NB, i=Choice(0, 1, 2)), requires=above, hooks={"opaque_linspace": True})
def energy_spectra(C, P):
    q, m = P.q, (P.m1, P.m2, P.m3)
    ds = C.mod(TB).ThreeBody(q, m, P.f).energy_distributions(P.nbins)
    C.eq(len(ds), 3, "one spectrum per particle")
    i = P.i
    edges = ds[i].bins
    hi = (q * q + m[i] ** 2 - (sum(m) - m[i]) ** 2) / (2 * q)
    C.eq(edges, C.np.linspace(m[i], hi, P.nbins + 1), "bins of particle %d span its energies" % i)
    es = (edges[1:] + edges[:-1]) / 2
    h = C.each(lambda e: spectrum(C, P, i, e), es)
    C.eq(ds[i].probabilities, hist(C, h, edges), "energy spectrum of particle %d" % i, tol=1e-4)


@contract("K03", [TB + ":ThreeBody.invariant_mass_distributions"], uses={D + ":normalize_distribution": plain}, params=dict(NB, pair=Choice((0, 1), (0, 2), (1, 2))), requires=above, hooks={"opaque_linspace": True})
def mass_spectra(C, P):
    q, m = P.q, (P.m1, P.m2, P.m3)
    ds = C.mod(TB).ThreeBody(q, m, P.f).invariant_mass_distributions(P.nbins)
    C.true(set(ds) == {(0, 1), (0, 2), (1, 2)}, "one spectrum per pair")
    i, j = P.pair
    k = 3 - i - j
    edges = ds[i, j].bins
    C.eq(edges, C.np.linspace(m[i] + m[j], q - m[k], P.nbins + 1), "bins of pair %d%d span its masses" % (i, j))
    ms = (edges[1:] + edges[:-1]) / 2
    e = lambda mm: (q * q - mm * mm + m[k] ** 2) / (2 * q)
    h = C.each(lambda mm: mm / q * spectrum(C, P, k, e(mm)), ms)
    C.eq(ds[i, j].probabilities, hist(C, h, edges), "mass spectrum of pair %d%d" % (i, j), tol=1e-4)


def some_events(orig, self, ps, *a, **k):
    n = ps.shape[2]
    x, y, z, e = [Arr(Real(0, None, samp=(1.0, 500.0)), shape=("k", "n")).make_sym("ev.%s" % c, dict(k=ps.shape[1], n=n)) for c in "xyze"]
    from vc import vnp
    return vnp.np.array([e, x, y, z])


def some_weights(orig, self, ps, *a, **k):
    return Arr(Real(0, None, samp=(0.1, 5.0)), shape=("n",)).make_sym("wgt", dict(n=ps.shape[2]))


MC = {R + ":Rambo._correct_masses": some_events, R + ":Rambo._compute_weights": some_weights}


def mandelstam_events(C, P, n, f, seed=None):
    """events of the flat generator, weights multiplied by the matrix element"""
    ps, w = C.mod(R).Rambo(P.q, C.np.array([P.m1, P.m2, P.m3])).generate(n, seed=seed)
    sq = lambda v: v[0] * v[0] - v[1] * v[1] - v[2] * v[2] - v[3] * v[3]
    return ps, w * f(sq(ps[:, 1] + ps[:, 2]), sq(ps[:, 0] + ps[:, 2]))


@contract("K03", [TB + ":ThreeBody.integrate"], uses=MC, params=dict(QM, f=Fn(2, 0), n=Int(2, None, samp=(2, 6))), requires=above)
def monte_carlo_integral(C, P):
    v, e = C.mod(TB).ThreeBody(P.q, (P.m1, P.m2, P.m3), P.f).integrate(method="rambo", npts=P.n)
    _, w = mandelstam_events(C, P, P.n, P.f)
    C.eq(v, C.np.sum(w) / P.n, "mean of the weights")


@contract("K03", [TB + ":ThreeBody.energy_distributions"], uses=dict(MC, **{D + ":normalize_distribution": plain}),
          params=dict(QM, f=Fn(2, 0), n=Int(2, None, samp=(2, 6)), nbins=Int(1, None, samp=(1, 4)), i=Choice(0, 1, 2)), requires=above)
def monte_carlo_spectra(C, P):
    tb = C.mod(TB).ThreeBody(P.q, (P.m1, P.m2, P.m3), P.f)
    d = tb.energy_distributions(P.nbins, method="rambo", npts=P.n)[P.i]
    ps, w = mandelstam_events(C, P, P.n, P.f)
    C.eq(d.probabilities, hist(C, C.np.histogram(ps[0, P.i], bins=d.bins, weights=w)[0], d.bins), "histogram of the weighted energies")


@contract("K03", [TB + ":ThreeBody.invariant_mass_distributions"], uses=dict(MC, **{D + ":normalize_distribution": plain}),
          params=dict(QM, f=Fn(2, 0), n=Int(2, None, samp=(2, 6)), nbins=Int(1, None, samp=(1, 4)), pair=Choice((0, 1), (0, 2), (1, 2))), requires=above)
def monte_carlo_mass_spectra(C, P):
    tb = C.mod(TB).ThreeBody(P.q, (P.m1, P.m2, P.m3), P.f)
    d = tb.invariant_mass_distributions(P.nbins, method="rambo", npts=P.n)[P.pair]
    ps, w = mandelstam_events(C, P, P.n, P.f)
    i, j = P.pair
    v = ps[:, i] + ps[:, j]
    mm = C.sqrt(C.abs(v[0] ** 2 - v[1] ** 2 - v[2] ** 2 - v[3] ** 2))
    C.eq(d.probabilities, hist(C, C.np.histogram(mm, bins=d.bins, weights=w)[0], d.bins), "histogram of the weighted pair masses")
