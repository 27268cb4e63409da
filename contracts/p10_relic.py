"""Relic density: equilibrium thermodynamics and the Boltzmann equation."""
from vc.api import contract, Real, Int, Arr, Fn, Choice
PROPS = ["K10"]
TF = "hazma.relic_density._thermal_functions"
DE = "hazma.relic_density._diffeq"
AP = "hazma.relic_density._approx"
RD = "hazma.relic_density._rd"
SG = "scipy.special"

T = Real(0, None, samp=(2.0, 80.0))
M = Real(0, None, samp=(20.0, 200.0))
G = Real(0, None, samp=(1.0, 4.0))
ST = Choice(True, False)


def density(C, P, t):
    """Maxwell-Boltzmann expansion of the Fermi or Bose distribution, 5 terms"""
    kn = C.mod(SG).kn
    m = P.m
    tot = 0
    for n in range(1, 6):
        sign = (-1) ** (n + 1) if P.fermion else 1
        tot = tot + C.q(sign) / n * kn(2, n * m / t)
    return P.g * m ** 2 * t / (2 * C.pi ** 2) * tot


@contract("K10", [TF + ":neq"], params=dict(t=T, m=M, g=G, fermion=ST))
def equilibrium_density(C, P):
    f = C.mod(TF).neq
    C.eq(f(P.t, P.m, g=P.g, is_fermion=P.fermion), density(C, P, P.t), "massive: five terms of the statistics' expansion")
    k = 0.0913453711751798 if P.fermion else 0.121793828233573
    C.eq(f(P.t, 0.0, g=P.g, is_fermion=P.fermion), P.g * k * P.t ** 3, "massless")
    C.eq(f(P.t, P.m), f(P.t, P.m, g=2.0, is_fermion=True), "two fermionic degrees of freedom by default")


@contract("K10", [TF + ":neq", TF + ":neq_deriv", TF + ":yeq"], params=dict(ts=Arr(T), m=M, g=G, fermion=ST))
def densities_of_arrays(C, P):
    mod = C.mod(TF)
    k = dict(g=P.g, is_fermion=P.fermion)
    for name in ("neq", "neq_deriv", "yeq", "yeq_deriv"):
        f = getattr(mod, name)
        C.eq(f(P.ts, P.m, **k), C.each(lambda t: f(t, P.m, **k), P.ts), "%s of arrays is elementwise" % name)
        C.eq(f(P.ts, 0.0, **k), C.each(lambda t: f(t, 0.0, **k), P.ts), "massless %s of arrays is elementwise" % name)
    C.eq(mod.yeq_derivx(P.ts, P.m, **k), C.each(lambda t: mod.yeq_derivx(t, P.m, **k), P.ts), "yeq_derivx of arrays is elementwise")


@contract("K10", [TF + ":neq_deriv"], params=dict(t=T, m=M, g=G, fermion=ST))
def density_derivative(C, P):
    mod = C.mod(TF)
    k = dict(g=P.g, is_fermion=P.fermion)
    C.eq(mod.neq_deriv(P.t, P.m, **k), C.diff(lambda t: mod.neq(t, P.m, **k), P.t), "temperature derivative of the density", tol=1e-4)
    C.eq(mod.neq_deriv(P.t, 0.0, **k), C.diff(lambda t: mod.neq(t, 0.0, **k), P.t), "massless temperature derivative", tol=1e-4)


@contract("K10", [TF + ":sm_entropy_density", TF + ":sm_entropy_density_deriv", TF + ":sm_dof_entropy"], params=dict(t=T))
def entropy(C, P):
    mod = C.mod(TF)
    C.eq(mod.sm_entropy_density(P.t), 2 * C.pi ** 2 / 45 * mod.sm_dof_entropy(P.t) * P.t ** 3, "entropy density of the effective degrees of freedom")
    C.eq(mod.sm_entropy_density_deriv(P.t), C.diff(mod.sm_entropy_density, P.t), "temperature derivative of the entropy density", tol=1e-3)


@contract("K10", [TF + ":yeq", TF + ":yeq_deriv", TF + ":yeq_derivx"], params=dict(t=T, x=Real(0, None, samp=(1.0, 20.0)), m=M, g=G, fermion=ST))
def yields(C, P):
    mod = C.mod(TF)
    k = dict(g=P.g, is_fermion=P.fermion)
    C.eq(mod.yeq(P.t, P.m, **k) * mod.sm_entropy_density(P.t), mod.neq(P.t, P.m, **k), "density over entropy density", tol=1e-6)
    C.eq(mod.yeq_deriv(P.t, P.m, **k), C.diff(lambda t: mod.yeq(t, P.m, **k), P.t), "temperature derivative of the yield", tol=1e-3)
    C.eq(mod.yeq_derivx(P.x, P.m, **k), C.diff(lambda x: mod.yeq(P.m / x, P.m, **k), P.x), "derivative of the yield in mass over temperature", tol=1e-3)


@contract("K10", [TF + ":weq"], params=dict(t=T, m=M, g=G, fermion=ST))
def log_yield(C, P):
    mod = C.mod(TF)
    k = dict(g=P.g, is_fermion=P.fermion)
    y = mod.yeq(P.t, P.m, **k)
    n = mod.neq(P.t, P.m, **k)
    w = mod.weq(P.t, P.m, **k)
    if n > 0:
        C.eq(w, C.log(y), "logarithm of the yield")
    else:
        C.true(w == -float("inf"), "vanishing densities give minus infinity")


class Dark:
    def __init__(self, mx, sigma):
        self.mx, self.sigma = mx, sigma

    def annihilation_cross_sections(self, cme):
        s = self.sigma(cme)
        return {"a": 0.25 * s, "b": 0.75 * s, "total": s}


class Thermal:
    def __init__(self, mx, sv):
        self.mx, self.sv = mx, sv

    def thermal_cross_section(self, x):
        return self.sv(x)


@contract("K10", [TF + ":thermal_cross_section", TF + ":thermal_cross_section_integrand"],
          params=dict(m=M, x=Real(0, None, samp=(0.5, 60.0)), z=Real(2, None, samp=(2.1, 8.0)), f=Fn(1, 0)))
def thermal_average(C, P):
    mod, sp = C.mod(TF), C.mod(SG)
    model = Dark(P.m, P.f)
    kern = lambda z: P.f(P.m * z) * z ** 2 * (z ** 2 - 4) * sp.k1(P.x * z)
    C.eq(mod.thermal_cross_section_integrand(P.z, P.x, model), kern(P.z), "kernel of the thermal average")
    r = mod.thermal_cross_section(P.x, model)
    if P.x > 300:
        C.eq(r, 0.0, "frozen out far below the mass")
    else:
        C.eq(r * (2 * sp.kn(2, P.x)) ** 2, P.x * C.integral(kern, 2.0, 2 + 50 / P.x), "thermal average from threshold", tol=1e-4)


@contract("K10", [TF + ":thermal_cross_section"], params=dict(m=M, x=Real(0, None, samp=(0.5, 400.0)), f=Fn(1, 0)))
def thermal_average_of_the_model(C, P):
    C.eq(C.mod(TF).thermal_cross_section(P.x, Thermal(P.m, P.f)), P.f(P.x), "a model's own thermal average is used")


W = Real(samp=(-25.0, -3.0))
L = Real(samp=(0.2, 3.0))


@contract("K10", [DE + ":boltzmann_eqn", DE + ":jacobian_boltzmann_eqn"], params=dict(m=M, l=L, w=W, f=Fn(1, 0)))
def boltzmann(C, P):
    de, tf = C.mod(DE), C.mod(TF)
    model = Thermal(P.m, P.f)
    x = C.exp(P.l)
    t = P.m / x
    pl = C.mod("hazma.parameters").plank_mass
    C.assume(tf.neq(t, P.m) > 0)
    rhs = de.boltzmann_eqn(P.l, [P.w], model)
    weq = tf.weq(t, P.m)
    want = -C.sqrt(C.pi / 45) * pl * P.m * tf.sm_sqrt_gstar(t) / x * P.f(x) * (C.exp(P.w) - C.exp(2 * weq - P.w))
    C.eq(rhs[0], want, "logarithmic yield follows the Boltzmann equation", tol=1e-6)
    jac = de.jacobian_boltzmann_eqn(P.l, [P.w], model)
    C.eq(jac[0][0], C.diff(lambda w: de.boltzmann_eqn(P.l, [w], model)[0], P.w), "Jacobian is the derivative of the right-hand side", tol=1e-4)
    C.shape(rhs, (1,), "one equation")
    C.shape(jac, (1, 1), "one by one Jacobian")


class Solution:
    def __init__(self, y):
        self.y = y


@contract("K10", [DE + ":solve_boltzmann"], params=dict(m=M, x0=Real(0, None, samp=(0.5, 2.0)), xf=Real(0, None, samp=(50.0, 500.0)), l=L, w=W, f=Fn(1, 0),
                                                        rtol=Real(0, 1), atol=Real(0, 1), default=Choice(True, False)))
def initial_value_problem(C, P):
    de, tf = C.mod(DE), C.mod(TF)
    model = Thermal(P.m, P.f)
    got = {}

    def fake(fun, t_span, y0, **k):
        got.update(k, fun=fun, span=t_span, y0=y0)
        return Solution([[0.0]])
    C.extern("scipy.integrate.solve_ivp", fake)
    C.assume(tf.neq(P.m / P.x0, P.m) > 0)
    C.assume(tf.neq(P.m / C.exp(P.l), P.m) > 0)
    kw = {} if P.default else dict(xf=P.xf)
    r = de.solve_boltzmann(model, x0=P.x0, rtol=P.rtol, atol=P.atol, method="BDF", **kw)
    C.true(isinstance(r, Solution), "the solution is returned")
    C.eq(got["span"][0], C.log(P.x0), "starts at the given temperature")
    C.eq(got["span"][1], C.log(P.x0) + 7 if P.default else C.log(P.xf), "ends at the given temperature, or seven e-folds later")
    C.eq(got["y0"][0], C.log(tf.yeq(P.m / P.x0, P.m)), "starts in equilibrium")
    C.eq(got["fun"](P.l, [P.w])[0], de.boltzmann_eqn(P.l, [P.w], model)[0], "evolves by the Boltzmann equation")
    C.eq(got["jac"](P.l, [P.w])[0][0], de.jacobian_boltzmann_eqn(P.l, [P.w], model)[0][0], "with its Jacobian")
    C.eq(got["rtol"], P.rtol, "relative tolerance is handed on")
    C.eq(got["atol"], P.atol, "absolute tolerance is handed on")
    C.true(got["method"] == "BDF", "method is handed on")


@contract("K10", [AP + ":xstar_root_eqn", AP + ":compute_xstar", AP + ":compute_alpha"],
          params=dict(m=M, x=Real(0, None, samp=(3.0, 30.0)), d=Real(0, None, samp=(0.2, 1.5)), f=Fn(1, 0), given=Choice(True, False)))
def freeze_out(C, P):
    ap, tf = C.mod(AP), C.mod(TF)
    model = Thermal(P.m, P.f)
    delta = P.d if P.given else None
    pl = C.mod("hazma.parameters").plank_mass
    dbar = P.d * (2 + P.d) / (1 + P.d) if P.given else 1
    y = lambda x: tf.yeq(P.m / x, P.m)
    lam = C.sqrt(C.pi / 45) * P.m * pl * tf.sm_sqrt_gstar(P.m / P.x)
    want = P.x ** 2 * C.diff(y, P.x) + lam * dbar * P.f(P.x) * y(P.x) ** 2
    C.eq(ap.xstar_root_eqn(P.x, model, delta), want, "freeze-out condition", tol=1e-3)

    class Root:
        def __init__(self, r):
            self.root = r
    got = {}

    def fake(f, *a, **k):
        got.update(k, f=f)
        return Root(P.x)
    C.extern("scipy.optimize.root_scalar", fake)
    C.eq(ap.compute_xstar(model, delta=delta), P.x, "the root is returned")
    C.eq(got["f"](P.x, *got.get("args", ())), ap.xstar_root_eqn(P.x, model, delta), "root of the freeze-out condition")
    C.eq(ap.compute_alpha(model, P.x), C.sqrt(C.pi / 45) * P.m * pl * C.integral(lambda z: tf.sm_sqrt_gstar(P.m / z) * P.f(z) / z ** 2, P.x, 100 * P.x),
         "annihilation after freeze-out", tol=1e-4)


@contract("K10", [RD + ":relic_density"], params=dict(m=M, x=Real(0, None, samp=(3.0, 30.0)), x0=Real(0, None), xf=Real(0, None), d=Real(0, None, samp=(0.2, 1.5)), w=W, f=Fn(1, 0), semi=Choice(True, False)))
def abundance_today(C, P):
    rd, ap, tf = C.mod(RD), C.mod(AP), C.mod(TF)
    par = C.mod("hazma.parameters")
    model = Thermal(P.m, P.f)
    got = {}

    class Root:
        def __init__(self, r):
            self.root = r

    def root(f, *a, **k):
        got.update(k, f=f)
        return Root(P.x)

    def ivp(fun, t_span, y0, **k):
        got.update(k, span=t_span, y0=y0, fun=fun)
        return Solution(C.np.array([[-1.0, -2.0, P.w]]))
    C.extern("scipy.optimize.root_scalar", root)
    C.extern("scipy.integrate.solve_ivp", ivp)
    C.assume(tf.neq(P.m / P.x0, P.m) > 0)
    r = rd.relic_density(model, semi_analytic=P.semi, delta=P.d, x0=P.x0, xf=P.xf, method="LSODA")
    if P.semi:
        y = tf.yeq(P.m / P.x, P.m)
        y0 = y / (1 + y * ap.compute_alpha(model, P.x))
        C.eq(got["f"](P.x, *got.get("args", ())), ap.xstar_root_eqn(P.x, model, P.d), "freeze-out with the given delta")
    else:
        y0 = C.exp(P.w)
        C.eq(got["span"], (C.log(P.x0), C.log(P.xf)), "integrated over the given range")
        C.true(got["method"] == "LSODA", "with the given method")
    C.eq(r, y0 * P.m * par.sm_entropy_density_today / par.rho_crit, "final yield times mass and entropy over the critical density")
