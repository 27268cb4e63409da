"""Spectra of final states of several particles: decays folded with phase space, radiation, prompt products."""
from vc.api import contract, Real, Int, Arr, Choice, Fn
PROPS = ["K08"]
S = "hazma.spectra."
NB = S + "_nbody:"
NAMES = {"mu": "muon", "pi": "charged_pion", "pi0": "neutral_pion", "k": "charged_kaon", "kl": "long_kaon", "ks": "short_kaon", "eta": "eta",
         "etap": "eta_prime", "rho": "charged_rho", "rho0": "neutral_rho", "omega": "omega", "phi": "phi"}
STABLE = ["e", "ve", "vm", "vt", "photon"]
NU = ("ve", "vm", "vt")
FLAVORS = ("e", "mu", "tau")
RADIATE = {"e": "fermion", "mu": "fermion", "pi": "scalar", "k": "scalar"}
E = Real(0, None, samp=(1.0, 900.0))
CM = Real(0, None, samp=(0.5, 1500.0))
PR = Real(0, None, samp=(0.0, 1.0))


def models():
    """the decay spectra (K22, K18) and the splitting functions (K09) are arbitrary functions here"""
    out = {}

    def plain(name):
        return lambda orig, es, e, *a: Fn(2, 0).make_sym(name, {})(es, e)

    def nu(name):
        def f(orig, es, e, flavor=None):
            from vc import vnp
            by = [Fn(2, 0).make_sym("%s.%s" % (name, k), {}) for k in FLAVORS]
            if flavor is not None:
                return by[FLAVORS.index(flavor)](es, e)
            return vnp.np.array([g(es, e) for g in by])
        return f

    def ap(name):
        return lambda orig, e, s, mass, charge=1.0: Fn(4, 0).make_sym(name, {})(e, s, mass, charge * charge)
    for n in NAMES.values():
        out[S + "_photon:dnde_photon_" + n] = plain("photon." + n)
        if n != "neutral_pion":
            out[S + "_positron:dnde_positron_" + n] = plain("positron." + n)
            out[S + "_neutrino:dnde_neutrino_" + n] = nu("neutrino." + n)
    for n in ("fermion", "scalar"):
        out[S + "altarelli_parisi:dnde_photon_ap_" + n] = ap("ap." + n)
    return out


class Spectra:
    """the spectra of the single particles"""

    def __init__(self, C, product):
        self.C, self.product, self.mod = C, product, C.mod("hazma.spectra")
        # the compiled neutrino spectra of muon and pion have one row per flavor
        self.mass = C.mod("hazma.parameters").standard_model_masses

    def decay(self, state, i, es, e):
        """row i (flavor) of the decay spectrum of a particle of energy e"""
        n = NAMES.get(state)
        if n is None or (state == "pi0" and self.product != "photon"):
            return 0.0 * es
        f = getattr(self.mod, "dnde_%s_%s" % (self.product, n))
        return f(es, e) if i is None else f(es, e, flavor=FLAVORS[i])

    def prompt(self, state, i):
        """is the particle itself the product?"""
        return state == {"photon": "photon", "positron": "e"}.get(self.product, NU[i or 0])

    def fsr(self, state, es, q):
        if state not in RADIATE:
            return None
        return getattr(self.mod, "dnde_photon_ap_" + RADIATE[state])(es, q ** 2, mass=self.mass[state], charge=1.0)


def ask(C, P, product, es, Q, states, **k):
    sp = C.mod("hazma.spectra")
    if product == "photon":
        return sp.dnde_photon(es, Q, states, **k)
    if product == "positron":
        return sp.dnde_positron(es, Q, states, **k)
    return sp.dnde_neutrino(es, Q, states, flavor=None if P.flavor == "all" else P.flavor, **k)


def rows(P, product):
    if product != "neutrino":
        return [None]
    return [0, 1, 2] if P.flavor == "all" else [FLAVORS.index(P.flavor)]


def row(P, product, got, i):
    return got[i] if product == "neutrino" and P.flavor == "all" else got


PRODUCTS = ("photon", "positron", "neutrino")
# the energy of the annihilation: `over` above the sum of the masses, or the fraction `part` of it
PF = dict(over=CM, part=Real(0, 1, samp=(0.1, 0.9)), es=Arr(E, minlen=1), j=Int(0, None, samp=(0, 3)), x=E)
OK = lambda P: P.j < P.es.shape[0]


def each_product(fns, **k):
    """one contract for every product"""
    def deco(f):
        for p in PRODUCTS:
            ps = dict(PF, **k)
            if p == "neutrino":
                ps["flavor"] = Choice("all", *FLAVORS)
            if p != "photon":
                ps.pop("radiate", None)

            def body(C, P, p=p):
                f(C, P, p)
            body.__name__ = "%s_%ss" % (f.__name__, p)
            body.__doc__ = f.__doc__
            contract("K08", fns, uses=models(), params=ps, requires=OK)(body)
        return f
    return deco


def below(C, P, product, masses, states, **k):
    if sum(masses) > 0:
        C.raises(ValueError, lambda: ask(C, P, product, P.es, sum(masses) * P.part, states, **k), "below threshold")


PUBLIC = [NB + k for k in ("dnde_photon", "dnde_positron", "dnde_neutrino", "_dnde_nbody", "_get_masses")]
PAIRS = [("mu", "mu"), ("pi", "pi"), ("pi0", "photon"), ("k", "pi"), ("kl", "ks"), ("eta", "phi"), ("etap", "omega"), ("rho", "pi"), ("rho0", "rho0"), ("e", "e"), ("e", "mu"),
         ("ve", "ve"), ("vm", "vt"), ("pi", "rho"), ("photon", "photon"), ("k0", "pi0"), ("k", "k"), ("tau", "mu")]


@each_product(PUBLIC + [NB + "_dnde_two_body"], states=Choice(*PAIRS), listed=Choice(True, False), radiate=Choice(True, False))
def two_body(C, P, product):
    S_ = Spectra(C, product)
    k = {"include_fsr": P.radiate} if product == "photon" else {}
    states = list(P.states) if P.listed else P.states
    m1, m2 = (S_.mass[s] for s in P.states)
    Q = m1 + m2 + P.over
    below(C, P, product, [m1, m2], states, **k)
    e1, e2 = (Q ** 2 + m1 ** 2 - m2 ** 2) / (2 * Q), (Q ** 2 - m1 ** 2 + m2 ** 2) / (2 * Q)

    def want(i, x):
        w = S_.decay(P.states[0], i, x, e1) + S_.decay(P.states[1], i, x, e2)
        for s in P.states:
            if product == "photon" and P.radiate and s in RADIATE:
                w = w + S_.fsr(s, x, Q)
        return w
    got, one = ask(C, P, product, P.es, Q, states, **k), ask(C, P, product, P.x, Q, states, **k)
    for i in rows(P, product):
        C.eq(row(P, product, got, i)[P.j], want(i, P.es[P.j]), "the decays of both particles at their energies, and their radiation")
        C.eq(row(P, product, one, i), want(i, P.x), "a single energy")


@each_product(PUBLIC, state=Choice(*NAMES, *STABLE), how=Choice("name", "list"))
def one_body(C, P, product):
    S_ = Spectra(C, product)
    states = P.state if P.how == "name" else [P.state]
    Q = S_.mass[P.state] + P.over
    below(C, P, product, [S_.mass[P.state]], states)
    got, one = ask(C, P, product, P.es, Q, states), ask(C, P, product, P.x, Q, states)
    for i in rows(P, product):
        C.eq(row(P, product, got, i)[P.j], S_.decay(P.state, i, P.es[P.j], Q), "the decay of the particle")
        C.eq(row(P, product, one, i), S_.decay(P.state, i, P.x, Q), "a single energy")


class Dist:
    def __init__(self, bins, probs):
        self.bin_centers, self.probabilities = bins, probs


MANY = [("pi", "pi", "pi0"), ("mu", "mu", "photon"), ("e", "e", "photon"), ("ve", "vm", "vt"), ("vt", "ve", "eta"), ("omega", "phi", "rho"), ("k", "pi", "mu"), ("kl", "ks", "rho0"), ("etap", "photon", "photon"),
        ("pi", "pi", "pi0", "pi0"), ("pi", "pi", "pi", "pi"), ("mu", "e", "ve", "vm"), ("k", "k", "e", "photon"), ("rho", "vm", "vm", "kl")]
IDX = {(0, 1): 0, (0, 2): 1, (0, 3): 2, (1, 2): 3, (1, 3): 4, (2, 3): 5}


@each_product(PUBLIC + [NB + k for k in ("_dnde_multi_particle", "_dnde_photon_fsr", "_conv_dnde_dist", "_make_energy_distributions", "_make_invariant_mass_distributions")],
              states=Choice(*MANY), radiate=Choice("average", "first", "none"), integrator=Choice(None, "rambo"), k=Int(2, 5), bins=Arr(E, shape=(4, "k")), probs=Arr(PR, shape=(4, "k")), masses=Arr(E, shape=(6, "k")), mprobs=Arr(PR, shape=(6, "k")))
def many_body(C, P, product):
    """every particle's spectrum averaged over its energy distribution, radiation over the masses of its pairs"""
    S_ = Spectra(C, product)
    n = len(P.states)
    pairs = [q for q in IDX if q[1] < n]
    D = [Dist(P.bins[i], P.probs[i]) for i in range(n)]
    I = {q: Dist(P.masses[IDX[q]], P.mprobs[IDX[q]]) for q in pairs}
    msqrd = lambda *a: 1.0
    asked = []

    def phase_space(kind):
        class PS:
            def __init__(self, cme, masses, msqrd=None, **k):
                asked.append((kind, cme, masses, msqrd, k.get("msqrd_signature", "sig")))

            def energy_distributions(self, *a, **k):
                asked.append(k["nbins"])
                return D

            def invariant_mass_distributions(self, *a, **k):
                asked.append(k["nbins"])
                return I
        return PS
    C.patch("hazma.phase_space.ThreeBody", phase_space("three"))
    C.patch("hazma.phase_space.Rambo", phase_space("rambo"))
    kw = dict(msqrd=msqrd, three_body_integrator=P.integrator, msqrd_signature="sig", npts=1000, nbins=7)
    if product == "photon":
        kw.update(include_fsr=P.radiate != "none", average_fsr=P.radiate == "average")
    masses = [S_.mass[s] for s in P.states]
    below(C, P, product, masses, P.states, **kw)
    Q = sum(masses) + P.over
    got, one = ask(C, P, product, P.es, Q, P.states, **kw), ask(C, P, product, P.x, Q, P.states, **kw)
    for a in asked:
        if not isinstance(a, tuple):
            C.eq(a, 7, "the number of bins is the one asked for")
            continue
        C.true(a[0] == ("three" if n == 3 and P.integrator is None else "rambo"), "the phase space asked for")
        C.eq(a[1], Q, "phase space at the energy of the annihilation")
        C.true([float(m) for m in a[2]] == [float(m) for m in masses], "phase space of the masses of the particles")
        C.true(a[3] is msqrd and a[4] == "sig", "phase space weighted with the squared matrix element")

    def want(i, x):
        w = 0.0
        for d, s in zip(D, P.states):
            if s in NAMES:
                w = w + C.np.trapezoid(d.probabilities * C.each(lambda e: S_.decay(s, i, x, e), d.bin_centers), d.bin_centers)
            if S_.prompt(s, i):
                w = w + C.np.interp(x, d.bin_centers, d.probabilities, left=0.0, right=0.0)
        if product == "photon" and P.radiate != "none":
            for s in sorted(set(P.states)):
                if s not in RADIATE:
                    continue
                legs = [q for q in pairs for p in q if P.states[p] == s]
                legs = legs[:1] if P.radiate == "first" else legs
                for q in legs:
                    d = I[q]
                    f = C.np.trapezoid(d.probabilities * C.each(lambda m: S_.fsr(s, x, m), d.bin_centers), d.bin_centers)
                    w = w + P.states.count(s) * f / len(legs)
        return w
    for i in rows(P, product):
        C.eq(row(P, product, got, i)[P.j], want(i, P.es[P.j]), "decays, prompt products and radiation of every particle")
        C.eq(row(P, product, one, i), want(i, P.x), "a single energy")


@contract("K08", PUBLIC, params=dict(es=Arr(E, minlen=1), Q=Real(0, None, samp=(300.0, 5000.0)), product=Choice(*PRODUCTS), states=Choice(("mu", "xx"), ("pi", "pi", "nope"), ["qq"], ("bogus", "pi", "pi", "pi"))))
def unknown_particles(C, P):
    f = getattr(C.mod("hazma.spectra"), "dnde_" + P.product)
    C.raises(ValueError, lambda: f(P.es, P.Q, P.states), "unknown particles are rejected")
    C.raises(ValueError, lambda: C.mod("hazma.spectra").dnde_neutrino(P.es, P.Q, ("mu", "mu"), flavor="muon"), "unknown flavors are rejected")
