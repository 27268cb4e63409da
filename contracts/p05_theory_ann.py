"""Annihilation spectra of any model: the base class over arbitrary channels."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Keyed, Energies
PROPS = ["K05"]
T = "hazma.theory:TheoryAnn."
E = Real(0, None, samp=(1.0, 300.0))
CM = Real(0, None, samp=(100.0, 500.0))
SIG = Keyed(Fn(1, 0, None, nonneg=True), extra=("g g", "pi0 g"))
SPEC = Keyed(Fn(2), extra=("g g", "pi0 g"))


def model(C, sigmas, dnde=None, pos=None, lines=None, pos_lines=None):
    class Model(C.mod("hazma.theory").TheoryAnn):
        mx = 100.0

        @staticmethod
        def list_annihilation_final_states():
            return []

        def annihilation_cross_section_funcs(self):
            return sigmas

        def partial_widths(self):
            return {}

        def _spectrum_funcs(self):
            return dnde

        def _positron_spectrum_funcs(self):
            return pos

        def _gamma_ray_line_energies(self, e_cm):
            return lines(e_cm)

        def _positron_line_energies(self, e_cm):
            return pos_lines(e_cm)
    return Model()


def fraction(C, sigmas, e_cm):
    """branching fraction of a cross section"""
    tot = C.total(sigmas, lambda k, f: f(e_cm))
    if tot == 0:
        return lambda s: 0.0
    return lambda s: s / tot


@contract("K05", [T + "annihilation_cross_sections"], params=dict(sig=SIG, e_cm=CM))
def cross_sections(C, P):
    tot = C.total(P.sig, lambda k, f: f(P.e_cm))
    C.eq(model(C, P.sig).annihilation_cross_sections(P.e_cm), C.entries(P.sig, lambda k, f: f(P.e_cm), total=tot), "cross sections and their sum")


@contract("K05", [T + "annihilation_branching_fractions"], params=dict(sig=SIG, e_cm=CM))
def branching_fractions(C, P):
    b = fraction(C, P.sig, P.e_cm)
    C.eq(model(C, P.sig).annihilation_branching_fractions(P.e_cm), C.entries(P.sig, lambda k, f: b(f(P.e_cm))), "cross section over their sum, zero when nothing annihilates")


@contract("K05", [T + "spectra", T + "total_spectrum", T + "spectrum_funcs"], params=dict(sig=SIG, dnde=SPEC, e=Energies(E), e_cm=CM))
def photon_spectra(C, P):
    m = model(C, P.sig, dnde=P.dnde)
    b = fraction(C, P.sig, P.e_cm)
    each = C.entries(P.sig, lambda k, f: b(f(P.e_cm)) * P.dnde[k](P.e, P.e_cm))
    tot = C.total(each)
    r = m.spectra(P.e, P.e_cm)
    C.eq(r, C.entries(each, lambda k, v: v, total=tot), "branching fraction times the channel's spectrum, and their sum")
    C.eq(m.total_spectrum(P.e, P.e_cm), tot, "total photon spectrum")
    fs = m.spectrum_funcs()
    C.eq(C.entries(fs, lambda k, f: f(P.e, P.e_cm)), C.entries(P.sig, lambda k, f: C.ite(f(P.e_cm) > 0, P.dnde[k](P.e, P.e_cm), 0.0 * P.e)), "spectra of open channels, zero for closed ones")


@contract("K05", [T + "positron_spectra", T + "total_positron_spectrum", T + "positron_spectrum_funcs"], params=dict(sig=SIG, pos=SPEC, e=Energies(E), e_cm=CM))
def positron_spectra(C, P):
    m = model(C, P.sig, pos=P.pos)
    b = fraction(C, P.sig, P.e_cm)
    each = C.entries(P.sig, lambda k, f: b(f(P.e_cm)) * P.pos[k](P.e, P.e_cm))
    tot = C.total(each)
    C.eq(m.positron_spectra(P.e, P.e_cm), C.entries(each, lambda k, v: v, total=tot), "branching fraction times the channel's spectrum, and their sum")
    C.eq(m.total_positron_spectrum(P.e, P.e_cm), tot, "total positron spectrum")
    fs = m.positron_spectrum_funcs()
    C.eq(C.entries(fs, lambda k, f: f(P.e, P.e_cm)), C.entries(P.sig, lambda k, f: C.ite(f(P.e_cm) > 0, P.pos[k](P.e, P.e_cm), 0.0 * P.e)), "spectra of open channels, zero for closed ones")


@contract("K05", [T + "gamma_ray_lines", T + "positron_lines"], params=dict(sig=SIG, e_cm=CM, f=Fn(1), g=Fn(1)))
def lines(C, P):
    m = model(C, P.sig, lines=lambda e: {"g g": P.f(e), "pi0 g": P.g(e)}, pos_lines=lambda e: {"pi0 g": P.f(e)})
    b = fraction(C, P.sig, P.e_cm)
    bf = lambda k: b(P.sig[k](P.e_cm))
    C.eq(m.gamma_ray_lines(P.e_cm), {"g g": {"energy": P.f(P.e_cm), "bf": bf("g g")}, "pi0 g": {"energy": P.g(P.e_cm), "bf": bf("pi0 g")}}, "photon lines: energy and branching fraction")
    C.eq(m.positron_lines(P.e_cm), {"pi0 g": {"energy": P.f(P.e_cm), "bf": bf("pi0 g")}}, "positron lines: energy and branching fraction")


@contract("K05", [T + "total_conv_spectrum_fn", T + "total_conv_positron_spectrum_fn"], params=dict(lo=E, hi=E, e_cm=CM, res=Fn(1, 0.01, 0.3), cont=Fn(2), line=Fn(1), pcont=Fn(2), pline=Fn(1), n=Int(2, 10000), x=E, e=E))
def convolved(C, P):
    """what is convolved with the detector: the total spectrum and the lines of the product, at the given energy"""
    asked = []

    def convolve(e_min, e_max, energy_res, spec_fn=None, lines=None, n_pts=1000):
        asked.append((e_min, e_max, energy_res(P.e), spec_fn(P.x), lines, n_pts))
        return len(asked)
    C.patch("hazma.theory.convolved_spectrum_fn", convolve)

    class Model(C.mod("hazma.theory").TheoryAnn):
        def total_spectrum(self, es, e_cm):
            return P.cont(es, e_cm)

        def gamma_ray_lines(self, e_cm):
            return {"g g": {"energy": P.line(e_cm), "bf": 0.5}}

        def total_positron_spectrum(self, es, e_cm):
            return P.pcont(es, e_cm)

        def positron_lines(self, e_cm):
            return {"e e": {"energy": P.pline(e_cm), "bf": 0.25}}
    m = Model()
    for f, cont, lines in ((m.total_conv_spectrum_fn, P.cont, {"g g": {"energy": P.line(P.e_cm), "bf": 0.5}}), (m.total_conv_positron_spectrum_fn, P.pcont, {"e e": {"energy": P.pline(P.e_cm), "bf": 0.25}})):
        for n in ((), (P.n,)):
            got = f(P.lo, P.hi, P.e_cm, P.res, *n)
            C.true(got == len(asked), "the convolution is returned")
            a = asked[-1]
            C.eq(a[:3], (P.lo, P.hi, P.res(P.e)), "over the range, with the resolution")
            C.eq(a[3], cont(P.x, P.e_cm), "of the continuum of the product")
            C.eq(a[4], lines, "and of its lines")
            if n:
                C.eq(a[5], P.n, "on the number of points asked for")
