"""RAMBO: events, weights, integrals, widths, cross sections, histograms."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Either, Bool
from fractions import Fraction
PROPS = ["K02"]
R = "hazma.phase_space._rambo"
U = "hazma.utils"
D = "hazma.phase_space._dist"

MASSES = Arr(Real(0, None, samp=(1.0, 100.0), closed=True), minlen=2)
CME = Real(0, None, samp=(1500.0, 4000.0))


def above(P):
    import importlib
    return P.q > sum_(P.ms)


def sum_(x):
    from vc import api
    if api.MODE[0] == "concrete":
        return sum(x)
    from vc import vnp
    return vnp.np.sum(x)


def xi_model(n):
    """contract of the rescaling step: any positive factor per event"""
    def f(orig, self, ps, *a, **k):
        from vc.api import Arr as A
        r = A(Real(0, None, samp=(0.3, 1.0)), shape=("n",)).make_sym("xi", {"n": ps.shape[2]})
        return r
    return f




def massless(C, x, y, z):
    return C.np.array([C.sqrt(x ** 2 + y ** 2 + z ** 2), x, y, z])


@contract("K02", [R + ":Rambo._initialize_momenta"], params=dict(q=CME, ms=MASSES, n=Int(1, None, samp=(1, 6))), requires=above)
def rambo_initial(C, P):
    ps = C.mod(R).Rambo(P.q, P.ms)._initialize_momenta(P.n)
    C.shape(ps, (4, P.ms.shape[0], P.n), "shape (4, particles, events)")
    C.eq(ps[1] ** 2 + ps[2] ** 2 + ps[3] ** 2, ps[0] ** 2, "massless momenta")
    C.le(0 * ps[0], ps[0], "energies are not negative")


@contract("K02", [R + ":Rambo._boost"],
          params=dict(q=CME, ms=MASSES, k=Int(2, None, samp=(2, 5)), n=Int(1, None, samp=(1, 5)),
                      x=Arr(shape=("k", "n")), y=Arr(shape=("k", "n")), z=Arr(shape=("k", "n"))), requires=above)
def rambo_boost(C, P):
    ps = massless(C, P.x, P.y, P.z)
    S = [C.np.sum(ps[j], axis=0) for j in range(4)]
    if C.symbolic:
        # total momentum is time-like (the vectors are not all parallel)
        timelike(C, S)
    out = C.mod(R).Rambo(P.q, P.ms)._boost(ps)
    if not C.symbolic:
        C.atol = 1e-6
    C.eq(C.np.sum(out[0], axis=0), 0 * S[0] + P.q, "energies add up to the centre-of-mass energy")
    for j in (1, 2, 3):
        C.eq(C.np.sum(out[j], axis=0), 0 * S[0], "spatial momentum %d balances" % j)
    C.eq(out[1] ** 2 + out[2] ** 2 + out[3] ** 2, out[0] ** 2, "momenta stay massless")


def timelike(C, S):
    from vc.engine import ENG
    from vc import terms as T
    a = S[0].val
    m2 = (S[0] ** 2 - S[1] ** 2 - S[2] ** 2 - S[3] ** 2).val
    ENG.assume(T.lt(T.num(0, T.R), a.t))
    ENG.assume(T.lt(T.num(0, T.R), m2.t))


@contract("K02", [R + ":Rambo._correct_masses"], uses={R + ":Rambo._compute_scale_factor": xi_model(0)},
          params=dict(q=CME, ms=MASSES, n=Int(1, None, samp=(1, 5))), requires=above)
def rambo_masses(C, P):
    k = P.ms.shape[0]
    x, y, z = arrays(C, "xyz", k, P.n, 1.0, 900.0)
    ps = massless(C, x, y, z)
    if not C.symbolic:
        f = P.q / C.np.sum(ps[0], axis=0)
        x, y, z = f * x, f * y, f * z
        ps = massless(C, x, y, z)
    out = C.mod(R).Rambo(P.q, P.ms)._correct_masses(ps.copy())
    xi = C.mod(R).Rambo(P.q, P.ms)._compute_scale_factor(ps)
    for j, v in ((1, x), (2, y), (3, z)):
        C.eq(out[j], xi * v, "momenta are rescaled by a common factor (%d)" % j)
    C.eq(out[0] ** 2, out[1] ** 2 + out[2] ** 2 + out[3] ** 2 + P.ms.reshape((k, 1)) ** 2, "on shell")
    C.le(0 * out[0], out[0], "energies are not negative")


@contract("K02", [R + ":Rambo._compute_scale_factor"],
          params=dict(q=CME, ms=MASSES, n=Int(1, None, samp=(1, 5)), e0=Arr(Real(0, None, samp=(1.0, 1000.0)), shape=(3, 1))), requires=above)
def rambo_scale_step(C, P):
    """the rescaling factor is a Newton iterate of
    f(xi) = sum_i sqrt((xi e_i)^2 + m_i^2) - q started from sqrt(1-(M/q)^2);
    five steps are made, or fewer when the residual of the last but one iterate
    is below the square root of the rounding unit"""
    np = C.np
    k = P.ms.shape[0]
    m = P.ms.reshape((k, 1))
    if C.symbolic:
        e = Arr(Real(0, None, samp=(1.0, 1000.0)), shape=("k", "n")).make_sym("e", dict(k=k, n=P.n))
        ps = np.array([e, e, e, e])
    else:
        r = C.rng
        e = np.array([[r.uniform(1, 1000.0) for _ in range(P.n)] for _ in range(k)])
        e *= P.q / e.sum(axis=0)
        ps = np.array([e, e, e, e])
    xi = C.mod(R).Rambo(P.q, P.ms)._compute_scale_factor(ps)
    x = C.sqrt(1 - (np.sum(P.ms) / P.q) ** 2) + 0 * np.sum(e, axis=0)
    alts = []
    for it in range(5):
        root = np.hypot(e * x, m)
        f = np.sum(root, axis=0) - P.q
        x = x - f / np.sum(x * e ** 2 / root, axis=0)
        alts.append((f, x))
    if not C.symbolic:
        C.eq(np.sum(C.sqrt((e * xi) ** 2 + m ** 2), axis=0), P.q + 0 * xi, "energies add up after rescaling", tol=1e-7)
        return
    j = C.which(xi, [x for _, x in alts])
    if j is None:
        C.fail("Newton iterate", "the result is no Newton iterate")
        return
    C.eq(xi, alts[j][1], "Newton iterate")
    if j < 4:
        C.lt(np.max(alts[j][0]), C.q(Fraction(1, 2 ** 26)), "iteration stops early only when the energies balance")


def volume(C, q, n):
    """massless n-body phase-space volume including (2 pi)^(4-3n)"""
    f = C.fact(n - 2)
    return (2 * C.pi) ** (4 - 3 * n) * (C.pi / 2) ** (n - 1) * q ** (2 * n - 4) / (f * f * (n - 1))


@contract("K02", [R + ":Rambo._compute_weights", R + ":Rambo._compute_base_weight"],
          params=dict(q=CME, ms=MASSES, n=Int(1, None, samp=(1, 5))), requires=above)
def rambo_weights(C, P):
    np = C.np
    k = P.ms.shape[0]
    sh = dict(k=k, n=P.n)
    if C.symbolic:
        E, x, y, z = [Arr(Real(0, None, samp=(0.5, 900.0)), shape=("k", "n")).make_sym(nm, sh) for nm in ("E", "x", "y", "z")]
    else:
        E, x, y, z = [np.array([[C.rng.uniform(1, 900.0) for _ in range(P.n)] for _ in range(k)]) for _ in range(4)]
    w = C.mod(R).Rambo(P.q, P.ms)._compute_weights(np.array([E, x, y, z]))
    p2 = x ** 2 + y ** 2 + z ** 2
    p = C.sqrt(p2)
    want = volume(C, P.q, k) * P.q * (np.sum(p, axis=0) / P.q) ** (2 * k - 3) * np.prod(p / E, axis=0) / np.sum(p2 / E, axis=0)
    C.eq(w, want, "weight of a massive event")


def arrays(C, names, k, n, lo, hi):
    if C.symbolic:
        return [Arr(Real(0, None, samp=(lo, hi)), shape=("k", "n")).make_sym(nm, dict(k=k, n=n)) for nm in names]
    return [C.np.array([[C.rng.uniform(lo, hi) for _ in range(n)] for _ in range(k)]) for _ in names]


def changed(C, P):
    """a generator whose energy and masses were changed, in any order or one of
    them alone"""
    r = C.mod(R).Rambo(P.q if P.order == "masses" else P.q2, P.ms if P.order == "energy" else P.ms2)
    if P.order == "reverse":
        r.masses = P.ms
    if P.order != "masses":
        r.cme = P.q
    if P.order in ("masses", "both"):
        r.masses = P.ms
    C.eq(r.cme, P.q, "energy is read back")
    C.eq(r.masses, P.ms, "masses are read back")
    k = P.ms.shape[0]
    E, x, y, z = arrays(C, "Exyz", k, P.n, 1.0, 900.0)
    return r, C.mod(R).Rambo(P.q, P.ms), C.np.array([E, x, y, z])


SET = dict(params=dict(q=CME, ms=MASSES, n=Int(1, None, samp=(1, 5)), q2=CME, ms2=MASSES, order=Choice("energy", "masses", "both", "reverse")),
           requires=lambda P: [P.q > sum_(P.ms), P.q2 > sum_(P.ms2), P.q2 > sum_(P.ms), P.q > sum_(P.ms2)])


@contract("K02", [R + ":Rambo.cme", R + ":Rambo.masses", R + ":Rambo._compute_weights"], **SET)
def rambo_setters_weights(C, P):
    """changing energy and masses is the same as building a new generator"""
    r, f, ps = changed(C, P)
    C.eq(r._compute_weights(ps.copy()), f._compute_weights(ps.copy()), "same weights")


@contract("K02", [R + ":Rambo.cme", R + ":Rambo.masses", R + ":Rambo._compute_scale_factor"], **SET)
def rambo_setters_scale(C, P):
    r, f, ps = changed(C, P)
    C.eq(r._compute_scale_factor(ps.copy(), iterations=1), f._compute_scale_factor(ps.copy(), iterations=1), "same rescaling")


@contract("K02", [R + ":Rambo.cme", R + ":Rambo.masses", R + ":Rambo._boost"], **SET)
def rambo_setters_boost(C, P):
    r, f, ps = changed(C, P)
    C.eq(r._boost(ps.copy()), f._boost(ps.copy()), "same boost")


def some_events(tag):
    def f(orig, self, ps, *a, **k):
        n = ps.shape[2]
        x, y, z, e = [Arr(Real(0, None, samp=(1.0, 500.0)), shape=("k", "n")).make_sym("%s.%s" % (tag, c), dict(k=ps.shape[1], n=n)) for c in "xyze"]
        from vc import vnp
        return vnp.np.array([e, x, y, z])
    return f


@contract("K02", [R + ":Rambo.generate"], uses={R + ":Rambo._correct_masses": some_events("ev")},
          params=dict(q=CME, ms=MASSES, n=Int(1, None, samp=(1, 5)), f=Fn(3, 0), seed=Int(0, 50)), requires=above)
def rambo_matrix_element(C, P):
    """the matrix element multiplies the weights event by event; the same seed
    gives the same events"""
    m = lambda ps: P.f(ps[0, 0], ps[1, 1], ps[3, 0])
    ps0, w0 = C.mod(R).Rambo(P.q, P.ms).generate(P.n, seed=P.seed)
    ps, w = C.mod(R).Rambo(P.q, P.ms, m).generate(P.n, seed=P.seed)
    C.eq(ps, ps0, "same seed, same momenta")
    C.eq(w, w0 * m(ps0), "weights times squared matrix element")


def some_weights(orig, self, n, *a, **k):
    w = Arr(Real(0, None, samp=(0.1, 5.0)), shape=("n",)).make_sym("w", dict(n=n))
    return None, w


@contract("K02", [R + ":Rambo.integrate", R + ":Rambo.decay_width", R + ":Rambo.cross_section"], uses={R + ":Rambo.generate": some_weights},
          params=dict(q=CME, ms=MASSES, n=Int(2, None, samp=(3, 9)), seed=Int(0, 9), a=Real(0, None, samp=(1.0, 300.0)), b=Real(0, None, samp=(1.0, 300.0))),
          requires=lambda P: [P.q > sum_(P.ms), P.q > P.a + P.b])
def rambo_integrate(C, P):
    r = C.mod(R).Rambo(P.q, P.ms)
    _, w = r.generate(P.n, seed=P.seed)
    mean = C.np.sum(w) / P.n
    err = C.sqrt(C.np.sum((w - mean) ** 2) / (P.n - 1)) / C.sqrt(P.n)
    for kw, nm in (({}, ""), (dict(batch_size=P.n), " (one batch)")):
        v, e = r.integrate(P.n, seed=P.seed, **kw)
        C.eq(v, mean, "integral is the mean weight" + nm)
        C.eq(e, err, "error of the mean" + nm)
        v, e = r.decay_width(P.n, seed=P.seed, **kw)
        C.eq(v, mean / (2 * P.q), "decay width is the integral over 2M" + nm)
        C.eq(e, err / (2 * P.q), "error of the width" + nm)
        v, e = r.cross_section(P.a, P.b, P.n, seed=P.seed, **kw)
        fl = C.mod(U).cross_section_prefactor(P.a, P.b, P.q)
        C.eq(v, mean * fl, "cross section is the integral times the flux factor" + nm)
        C.eq(e, err * fl, "error of the cross section" + nm)


@contract("K02", [R + ":Rambo.integrate", R + ":Rambo.generator"], uses={R + ":Rambo._correct_masses": some_events("ev")},
          params=dict(q=CME, ms=MASSES, n=Int(2, None, samp=(3, 14)), b=Int(2, None, samp=(2, 9)), k=Choice(1, 2, 3, 4)), requires=lambda P: [above(P), P.n > (P.k - 1) * P.b, P.n <= P.k * P.b, P.n != P.b], samples=200)
def rambo_batches(C, P):
    """the batched mode averages over the smallest sufficient number of batches
    (any number of events and batch size with up to four batches)"""
    n, b = P.n, P.b
    r = C.mod(R).Rambo(P.q, P.ms)
    batches = list(r.generator(n, b, seed=3))
    C.eq(len(batches), P.k, "number of batches")
    v, e = C.mod(R).Rambo(P.q, P.ms).integrate(n, b, seed=3)
    ms = [C.np.sum(w) / b for _, w in batches]
    C.eq(v, sum(ms) / len(ms), "integral is the mean over the batches")
    es = [C.np.sum((w - m) ** 2) / (b - 1) / b for m, (_, w) in zip(ms, batches)]
    C.eq(e, C.sqrt(sum(es)) / len(es), "error of the mean over the batches")
    for ps, w in batches:
        C.shape(ps, (4, P.ms.shape[0], b), "shape of a batch")
        C.shape(w, (b,), "weights of a batch")


def counted_events(orig, self, ps, *a, **k):
    """arbitrary events, different ones for every batch"""
    c = getattr(self, "_vc_count", 0)
    self._vc_count = c + 1
    return some_events("ev%d" % c)(orig, self, ps)


def counted_weights(orig, self, ps, *a, **k):
    c = getattr(self, "_vc_wcount", 0)
    self._vc_wcount = c + 1
    return Arr(Real(0, None, samp=(0.1, 5.0)), shape=("n",)).make_sym("wgt%d" % c, dict(n=ps.shape[2]))


def plain(orig, probabilities, edges):
    """the normalisation has its own contracts (K04); here histograms are
    compared before it"""
    return probabilities


def hist(C, x, w, edges):
    """normalised histogram of the sums of `w` in the bins of `x`"""
    h = sum(C.np.histogram(a, bins=edges, weights=b)[0] for a, b in zip(x, w))
    return C.mod(D).normalize_distribution(h, edges)


HP = dict(q=CME, n=Int(1, None, samp=(2, 6)), nbins=Int(1, None, samp=(1, 4)), mode=Choice(0, 1, 2))


def hist_setup(C, P, k):
    r = C.mod(R).Rambo(P.q, P.ms)
    if P.mode == 2:
        gen = list(r.generator(4, 2, seed=5))
        n, kw = 4, dict(batch_size=2)
    else:
        gen = [r.generate(P.n, seed=5)]
        n, kw = P.n, (dict(batch_size=P.n) if P.mode else {})
    return gen, n, kw


@contract("K02", [R + ":Rambo.energy_distributions"], uses={R + ":Rambo._correct_masses": counted_events, R + ":Rambo._compute_weights": counted_weights, D + ":normalize_distribution": plain},
          params=dict(HP, ms=Arr(Real(0, None, samp=(1.0, 100.0)), shape=(3,))), requires=above)
def rambo_energy_histograms(C, P):
    gen, n, kw = hist_setup(C, P, 3)
    ds = C.mod(R).Rambo(P.q, P.ms).energy_distributions(n, P.nbins, seed=5, **kw)
    C.eq(len(ds), 3, "one distribution per particle")
    tot = P.ms[0] + P.ms[1] + P.ms[2]
    for i in range(3):
        hi = (P.q ** 2 + P.ms[i] ** 2 - (tot - P.ms[i]) ** 2) / (2 * P.q)
        edges = C.np.linspace(P.ms[i], hi, P.nbins + 1)
        C.eq(ds[i].bins, edges, "bins of particle %d span its energies" % i)
        C.eq(ds[i].probabilities, hist(C, [ps[0, i] for ps, _ in gen], [w for _, w in gen], edges), "normalised histogram of the energy of particle %d" % i)


@contract("K02", [R + ":Rambo.invariant_mass_distributions"], uses={R + ":Rambo._correct_masses": counted_events, R + ":Rambo._compute_weights": counted_weights, D + ":normalize_distribution": plain},
          params=dict(HP, ms=Arr(Real(0, None, samp=(1.0, 100.0)), shape=(4,))), requires=above)
def rambo_mass_histograms(C, P):
    gen, n, kw = hist_setup(C, P, 4)
    ds = C.mod(R).Rambo(P.q, P.ms).invariant_mass_distributions(n, P.nbins, seed=5, **kw)
    pairs = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
    C.true(set(ds) == set(pairs), "one distribution per pair")
    m = P.ms
    for i, j in pairs:
        k, l = [x for x in range(4) if x not in (i, j)]
        edges = C.np.linspace(m[i] + m[j], P.q - m[k] - m[l], P.nbins + 1)
        C.eq(ds[i, j].bins, edges, "bins of pair %d%d span its invariant masses" % (i, j))
        x = []
        for ps, _ in gen:
            v = [ps[a, i] + ps[a, j] for a in range(4)]
            x.append(C.sqrt(C.abs(v[0] ** 2 - v[1] ** 2 - v[2] ** 2 - v[3] ** 2)))
        C.eq(ds[i, j].probabilities, hist(C, x, [w for _, w in gen], edges), "normalised histogram of the mass of pair %d%d" % (i, j))
