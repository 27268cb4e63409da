"""Normalised one-dimensional phase-space distributions and kinematic limits."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Either, Bool
PROPS = ["K04"]
D = "hazma.phase_space._dist"
U = "hazma.phase_space._utils"
PSD = D + ":PhaseSpaceDistribution1D"

EDGES = Arr(Real(0, None, samp=(1.0, 60.0)), increasing=True, minlen=2)


def matching(P):
    return P.x.shape[0] == P.y.shape[0] + 1


XY = dict(x=Arr(Real(0, None, samp=(1.0, 60.0)), increasing=True, shape=("n1",)), y=Arr(Real(0, None, samp=(0.05, 4.0)), shape=("n",)))


class Edges:
    pass


def setup(C, P, signed=False):
    n = P.n
    elem = Real() if signed else Real(0, None, samp=(0.05, 4.0))
    if C.symbolic:
        x = Arr(Real(0, None, samp=(1.0, 60.0)), increasing=True, shape=("n1",)).make_sym("x", {"n1": n + 1})
        y = Arr(elem, shape=("n",)).make_sym("y", {"n": n})
        if not signed:
            C.assume(total(C, x, y) > 0)
    else:
        x = C.np.cumsum([C.rng.uniform(0.2, 5.0) for _ in range(n + 1)])
        y = C.np.array([C.rng.uniform(-1.0 if signed else 0.05, 4.0) for _ in range(n)])
    return x, y


def total(C, x, y):
    return C.np.sum(y * (x[1:] - x[:-1]))


@contract("K04", [PSD + ".__init__", D + ":normalize_distribution"], params=dict(n=Int(1, None, samp=(1, 6))))
def normalised(C, P):
    x, y = setup(C, P)
    d = C.mod(D).PhaseSpaceDistribution1D(x, y)
    t = total(C, x, y)
    C.eq(d.bins, x, "edges are kept")
    C.eq(d.bin_centers, (x[1:] + x[:-1]) / 2, "bin centres")
    C.eq(d.probabilities * t, y, "contents are divided by their integral")
    C.eq(len(d) if not C.symbolic else d.probabilities.shape[0], P.n, "one probability per bin")
    C.eq(C.np.sum(d.probabilities * (x[1:] - x[:-1])), 1.0, "total probability is one")
    lo, hi = d.limits()
    C.eq(lo, x[0], "lower limit is the first edge")
    C.eq(hi, x[P.n], "upper limit is the last edge")


@contract("K04", [D + ":normalize_distribution", U + ":normalize_distribution"], params=dict(n=Int(1, None, samp=(1, 6)), m=Choice(D, U)))
def normalise_any(C, P):
    x, y = setup(C, P, True)
    r = C.mod(P.m).normalize_distribution(y, x)
    t = total(C, x, y)
    if C.symbolic:
        from vc.engine import ENG
        from vc.sym import bterm
        pos = ENG.decide(bterm(t > 0))
        neg = False if pos else ENG.decide(bterm(C.np.min(y) < 0))
    else:
        pos, neg = t > 0, (y.min() < 0)
    if pos:
        C.eq(r * t, y, "divided by the integral")
    elif neg:
        C.true(C.np.isnan(r), "undefined when contents are negative and do not integrate to a positive number")
    else:
        C.eq(r, y, "empty histograms are left alone")


@contract("K04", [PSD + ".__init__"], params=dict(x=Arr(Real(0, None, samp=(1.0, 60.0))), y=Arr(Real(0, None))), requires=lambda P: P.x.shape[0] != P.y.shape[0] + 1)
def shapes_must_match(C, P):
    C.raises(AssertionError, lambda: C.mod(D).PhaseSpaceDistribution1D(P.x, P.y), "edges must be one more than contents")


@contract("K04", [PSD + ".__call__"], params=dict(n=Int(2, None, samp=(2, 6)), j=Int(0, None, samp=(0, 4)), v=Real(0, 1, samp=(0.01, 0.99)), e=Real(samp=(-5.0, 60.0))), requires=lambda P: P.j < P.n - 1)
def interpolated(C, P):
    x, y = setup(C, P)
    d = C.mod(D).PhaseSpaceDistribution1D(x, y)
    c, p = d.bin_centers, d.probabilities
    if not C.symbolic:
        j = min(P.j, P.n - 2)
    else:
        j = P.j
    C.eq(d(c[j]), p[j], "value at a bin centre is the content")
    z = (1 - P.v) * c[j] + P.v * c[j + 1]
    C.eq(d(z), (1 - P.v) * p[j] + P.v * p[j + 1], "linear between neighbouring centres")
    C.eq(d(c[0] - P.v), 0.0, "zero below the first centre")
    C.eq(d(c[P.n - 1] + P.v), 0.0, "zero above the last centre")


@contract("K04", [PSD + ".expect"], params=dict(n=Int(2, None, samp=(2, 6)), f=Fn(1, 0), g=Fn(2, 0), a=Real()))
def expectations(C, P):
    x, y = setup(C, P)
    d = C.mod(D).PhaseSpaceDistribution1D(x, y)
    c, p = d.bin_centers, d.probabilities
    v = p * P.f(c)
    trapz = C.np.sum((v[1:] + v[:-1]) / 2 * (c[1:] - c[:-1]))
    C.eq(d.expect(P.f), trapz, "trapezoidal rule by default")
    C.eq(d.expect(P.f, method="trapz"), trapz, "trapezoidal rule")
    w = p * P.g(c, P.a)
    C.eq(d.expect(P.g, args=(P.a,)), C.np.sum((w[1:] + w[:-1]) / 2 * (c[1:] - c[:-1])), "further arguments are passed on")
    C.eq(d.expect(P.f, method="simps"), C.simpson(v, c), "Simpson's rule")
    C.eq(d.expect(P.f, method="quad"), C.integral(lambda e: d(e) * P.f(e), x[0], x[P.n]), "quadrature over the full range", tol=1e-2)
    C.raises(ValueError, lambda: d.expect(P.f, method="monte"), "unknown rules are rejected")


@contract("K04", [PSD + ".expect"], params=dict(n=Int(2, None, samp=(2, 6)), f=Fn(2, 0), es=Arr(Real(0, None), minlen=1)))
def expectations_vector(C, P):
    """functions returning an array are averaged element by element"""
    x, y = setup(C, P)
    d = C.mod(D).PhaseSpaceDistribution1D(x, y)
    r = d.expect(lambda e: P.f(e, P.es))
    want = C.each(lambda s: d.expect(lambda e: P.f(e, s)), P.es)
    C.eq(r, want, "element by element")


@contract("K04", [U + ":energy_limits"], params=dict(q=Real(0, None, samp=(500.0, 2000.0)), ms=Arr(Real(0, None, samp=(1.0, 60.0)), minlen=2), i=Int(0, None, samp=(0, 3))), requires=lambda P: P.i < P.ms.shape[0])
def energy_range(C, P):
    e = C.mod(U).energy_limits(P.q, P.ms)
    lo, hi = e[P.i]
    m = P.ms[P.i]
    rest = C.np.sum(P.ms) - m
    C.eq(lo, m, "least energy is the mass")
    C.eq(hi, (P.q ** 2 + m ** 2 - rest ** 2) / (2 * P.q), "largest energy: the others recoil together")


@contract("K04", [U + ":energy_limits", U + ":invariant_mass_limits"], params=dict(q=Real(0, None, samp=(500.0, 2000.0)), ms=Arr(Real(0, None, samp=(1.0, 60.0)), shape=(5,)), n=Choice(2, 3, 4, 5)))
def ranges(C, P):
    ms = [P.ms[j] for j in range(P.n)]
    lims = C.mod(U).energy_limits(P.q, ms)
    C.eq(len(lims), P.n, "one range per particle")
    for j in range(P.n):
        rest = sum(ms) - ms[j]
        C.eq(lims[j], (ms[j], (P.q ** 2 + ms[j] ** 2 - rest ** 2) / (2 * P.q)), "energy range of particle %d" % j)
    lims = C.mod(U).invariant_mass_limits(P.q, ms)
    C.true(set(lims) == {(i, j) for i in range(P.n) for j in range(i + 1, P.n)}, "one range per pair")
    for i, j in lims:
        C.eq(lims[i, j], (ms[i] + ms[j], P.q - (sum(ms) - ms[i] - ms[j])), "mass range of pair %d%d" % (i, j))
