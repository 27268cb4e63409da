"""Two-body kinematics, flux factors, Lorentz products, two-body phase space."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Either, Energies
PROPS = ["K01"]
U = "hazma.utils"

M = Real(0, None, samp=(0.1, 900.0))


@contract("K01", [U + ":kallen_lambda"], params=dict(a=Real(), b=Real(), c=Real()))
def kallen(C, P):
    k = C.mod(U).kallen_lambda
    a, b, c = P.a, P.b, P.c
    r = k(a, b, c)
    C.eq(r, (a - b - c) ** 2 - 4 * b * c, "value")
    for j, (x, y, z) in enumerate([(a, c, b), (b, a, c), (b, c, a), (c, a, b), (c, b, a)]):
        C.eq(k(x, y, z), r, "symmetric under permutation %d" % j)


@contract("K01", [U + ":kallen_lambda"], params=dict(a=Arr(), b=Real(), c=Real()))
def kallen_array(C, P):
    C.eq(C.mod(U).kallen_lambda(P.a, P.b, P.c), (P.a - P.b - P.c) ** 2 - 4 * P.b * P.c, "elementwise value")


Q = Either(Real(0, None, samp=(0.5, 3000.0)), Arr(Real(0, None, samp=(500.0, 3000.0))))


@contract("K01", [U + ":two_body_momentum"], params=dict(q=Real(0, None, samp=(0.5, 3000.0)), m1=Real(0, None, samp=(1e-2, 900.), closed=True), m2=Real(0, None, samp=(1e-2, 900.), closed=True)),
          requires=lambda P: P.q >= P.m1 + P.m2)
def momentum(C, P):
    q, m1, m2 = P.q, P.m1, P.m2
    f = C.mod(U).two_body_momentum
    p = f(q, m1, m2)
    C.eq((2 * q * p) ** 2, (q * q - (m1 + m2) ** 2) * (q * q - (m1 - m2) ** 2), "momentum solves the two-body kinematics", tol=1e-5)
    C.le(C.q(0), p, "momentum is not negative")
    C.eq(f(q, m2, m1), p, "symmetric in the masses")


@contract("K01", [U + ":two_body_momentum"], params=dict(p=Real(0, None, samp=(1e-3, 1000.), closed=True), m1=Real(0, None, samp=(1e-2, 900.)), m2=Real(0, None, samp=(1e-2, 900.))))
def momentum_energy(C, P):
    # total energy of a pair with momentum p gives back p
    q = C.sqrt(P.p ** 2 + P.m1 ** 2) + C.sqrt(P.p ** 2 + P.m2 ** 2)
    C.eq((C.mod(U).two_body_momentum(q, P.m1, P.m2)) ** 2, P.p ** 2, "inverse of the total energy", tol=1e-4)


@contract("K01", [U + ":two_body_momentum"], params=dict(m1=Real(0, None, samp=(1., 200.)), m2=Real(0, None, samp=(1., 200.)), q=Arr(Real(0, None, samp=(500., 3000.)), where=lambda x, P: x >= P.m1 + P.m2)))
def momentum_array(C, P):
    p = C.mod(U).two_body_momentum(P.q, P.m1, P.m2)
    C.eq((2 * P.q * p) ** 2, (P.q ** 2 - (P.m1 + P.m2) ** 2) * (P.q ** 2 - (P.m1 - P.m2) ** 2), "elementwise momentum", tol=1e-5)


@contract("K01", [U + ":cross_section_prefactor"], params=dict(q=Real(0, None, samp=(0.5, 3000.0)), m1=Real(0, None, samp=(1e-2, 900.)), m2=Real(0, None, samp=(1e-2, 900.))),
          requires=lambda P: P.q > P.m1 + P.m2)
def flux(C, P):
    q, m1, m2 = P.q, P.m1, P.m2
    f = C.mod(U).cross_section_prefactor
    r = f(m1, m2, q)
    lam = (q * q - (m1 + m2) ** 2) * (q * q - (m1 - m2) ** 2)
    C.eq(r, 1 / (2 * C.sqrt(lam)), "flux factor is 1/(4 p E)")
    C.eq(f(m2, m1, q), r, "symmetric")
    C.lt(C.q(0), r, "positive")


@contract("K01", [U + ":kinematically_accessable"], params=dict(q=Real(), ms=Arr(Real(0, None))))
def accessible(C, P):
    r = C.mod(U).kinematically_accessable(P.q, P.ms)
    C.eq(r, P.q > C.np.sum(P.ms), "open iff above the sum of the masses")


@contract("K01", [U + ":ldot", U + ":lnorm_sqr", U + ":minkowski_dot"], params=dict(a=Arr(shape=(4, None)), b=Arr(shape=(4, None))),
          requires=lambda P: P.a.shape[1] == P.b.shape[1])
def dots(C, P):
    m = C.mod(U)
    a, b = P.a, P.b
    want = a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]
    C.eq(m.ldot(a, b), want, "ldot")
    C.eq(m.ldot(b, a), want, "ldot symmetric")
    C.eq(m.minkowski_dot(a, b), want, "minkowski_dot")
    C.eq(m.lnorm_sqr(a), m.ldot(a, a), "norm is the self product")
    C.eq(m.ldot(a.T, b.T, axis=1), want, "ldot axis")
    C.eq(m.lnorm_sqr(a.T, axis=1), m.lnorm_sqr(a), "norm axis")


@contract("K01", [U + ":ldot", U + ":lnorm_sqr"], params=dict(a=Arr(shape=(3, None))))
def dots_dimension(C, P):
    C.raises(AssertionError, lambda: C.mod(U).ldot(P.a, P.a), "three-component vectors are rejected")
    C.raises(AssertionError, lambda: C.mod(U).lnorm_sqr(P.a), "three-component vectors are rejected (norm)")


@contract("K01", [U + ":ldot", U + ":minkowski_dot"], params=dict(a=Arr(shape=(4,)), b=Arr(shape=(4,)), v=Real(-1, 1), ax=Choice(1, 2, 3)))
def dots_invariant(C, P):
    g = 1 / C.sqrt(1 - P.v ** 2)

    def boost(x):
        y = [x[0], x[1], x[2], x[3]]
        y[0] = g * (x[0] - P.v * x[P.ax])
        y[P.ax] = g * (x[P.ax] - P.v * x[0])
        return y
    m = C.mod(U)
    C.eq(m.minkowski_dot(boost(P.a), boost(P.b)), m.minkowski_dot(P.a, P.b), "invariant under boosts", tol=1e-4)
    C.eq(m.ldot(C.np.array(boost(P.a)), C.np.array(boost(P.b))), m.ldot(P.a, P.b), "ldot invariant under boosts", tol=1e-4)


TB = "hazma.phase_space._two_body"
PSU = "hazma.phase_space._utils"


def _above(P):
    return P.q > P.m1 + P.m2


QM = dict(q=Real(0, None, samp=(500., 3000.0)), m1=Real(0, None, samp=(1e-2, 240.)), m2=Real(0, None, samp=(1e-2, 240.)))


@contract("K01", [TB + ":TwoBody.integrate", PSU + ":two_body_phase_space_prefactor"], params=QM, requires=_above)
def two_body_flat(C, P):
    # constant squared matrix element: volume p / (4 pi q)
    tb = C.mod(TB).TwoBody
    lam = C.sqrt((P.q ** 2 - (P.m1 + P.m2) ** 2) * (P.q ** 2 - (P.m1 - P.m2) ** 2))
    want = lam / (8 * C.pi * P.q ** 2)
    C.eq(tb(P.q, [P.m1, P.m2]).integrate()[0], want, "flat matrix element gives the phase-space volume")
    C.eq(tb(P.q, [P.m1, P.m2], msqrd=lambda z: 1.0).integrate()[0], want, "unit matrix element gives the phase-space volume")
    C.eq(C.mod(PSU).two_body_phase_space_prefactor(P.q, P.m1, P.m2), want, "closed form")
    t = tb(2 * P.q, (P.m2, P.m2))
    t.cme = P.q
    t.masses = (P.m1, P.m2)
    C.eq(t.integrate()[0], want, "after changing energy and masses")
    t.msqrd = lambda z: 3.0
    C.eq(t.integrate()[0], 3 * want, "after changing the matrix element")


@contract("K01", [PSU + ":two_body_phase_space_prefactor"], params=dict(q=Arr(Real(0, None, samp=(500., 3000.0))), m1=Real(0, None, samp=(1., 240.)), m2=Real(0, None, samp=(1., 240.))))
def two_body_prefactor_array(C, P):
    r = C.mod(PSU).two_body_phase_space_prefactor(P.q, P.m1, P.m2)
    k = C.mod(U).kallen_lambda(P.q ** 2, P.m1 ** 2, P.m2 ** 2)
    C.eq(r, C.sqrt(C.max(k, 0 * k)) / (8 * C.pi * P.q ** 2), "elementwise value, zero where the momentum is imaginary")


@contract("K01", [TB + ":TwoBody.integrate"], params=dict(QM, f=Fn(1, 0)), requires=_above)
def two_body_angle(C, P):
    tb = C.mod(TB).TwoBody
    lam = C.sqrt((P.q ** 2 - (P.m1 + P.m2) ** 2) * (P.q ** 2 - (P.m1 - P.m2) ** 2))
    want = lam / (16 * C.pi * P.q ** 2) * C.integral(lambda z: P.f(z), -1, 1)
    C.eq(tb(P.q, (P.m1, P.m2), P.f).integrate()[0], want, "angular average of the matrix element", tol=1e-4)
    C.eq(tb(P.q, (P.m1, P.m2), P.f, msqrd_signature="z").integrate()[0], want, "angular average, explicit signature", tol=1e-4)
    t = tb(2 * P.q, (P.m2, P.m2), lambda z: 2.0)
    t.cme, t.masses, t.msqrd = P.q, [P.m1, P.m2], P.f
    C.eq(t.integrate()[0], want, "after changing energy, masses and matrix element", tol=1e-4)


@contract("K01", [TB + ":TwoBody.integrate"], params=dict(QM, f=Fn(8, 0), mu=Real(0, None, samp=(50., 90.))), requires=_above)
def two_body_momenta(C, P):
    tb = C.mod(TB).TwoBody
    q, m1, m2 = P.q, P.m1, P.m2
    lam = C.sqrt((q ** 2 - (m1 + m2) ** 2) * (q ** 2 - (m1 - m2) ** 2))
    p = lam / (2 * q)
    e1 = (q ** 2 + m1 ** 2 - m2 ** 2) / (2 * q)
    e2 = (q ** 2 + m2 ** 2 - m1 ** 2) / (2 * q)

    def at(z):
        s = C.sqrt(1 - z * z)
        return P.f(e1, s * p, 0.0, z * p, e2, -s * p, 0.0, -z * p)

    def msq(ps):
        return P.f(ps[0, 0], ps[1, 0], ps[2, 0], ps[3, 0], ps[0, 1], ps[1, 1], ps[2, 1], ps[3, 1])
    want = lam / (16 * C.pi * q ** 2) * C.integral(at, -1, 1)
    C.eq(tb(q, (m1, m2), msq, "momenta").integrate()[0], want, "momenta are on shell and back to back", tol=1e-4)
    t = tb(2 * q, (m2, m2), lambda ps: 2.0, "momenta")
    t.cme, t.masses, t.msqrd = q, [m1, m2], msq
    C.eq(t.integrate()[0], want, "after changing energy, masses and matrix element", tol=1e-4)
    C.eq(tuple(t.masses), (m1, m2), "masses in the given order")


@contract("K01", [TB + ":TwoBody.msqrd"], params=dict(z=Arr(Real(-1, 1))))
def two_body_default_matrix_element(C, P):
    m = C.mod(TB).TwoBody(10.0, (1.0, 2.0)).msqrd
    C.eq(m(0.25), 1.0, "unit at a point")
    C.eq(m(P.z), 0 * P.z + 1, "unit at an array of angles")
