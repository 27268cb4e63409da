"""Decay spectra of any model: the base class over arbitrary channels."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Keyed, Energies
PROPS = ["K06"]
T = "hazma.theory:TheoryDec."
E = Real(0, None, samp=(1.0, 300.0))
WID = Keyed(Real(0, None, closed=True, samp=(0.0, 3.0), special=(0.0,)), extra=("g g", "pi0 g"))
SPEC = Keyed(Fn(1), extra=("g g", "pi0 g"))


def model(C, widths, dnde=None, pos=None, lines=None, pos_lines=None):
    class Model(C.mod("hazma.theory").TheoryDec):
        mx = 100.0

        @staticmethod
        def list_decay_final_states():
            return []

        def _decay_widths(self):
            return widths

        def _spectrum_funcs(self):
            return dnde

        def _positron_spectrum_funcs(self):
            return pos

        def _gamma_ray_line_energies(self):
            return lines

        def _positron_line_energies(self):
            return pos_lines
    return Model()


def fraction(C, widths):
    tot = C.total(widths)
    if tot == 0:
        return lambda w: 0.0
    return lambda w: w / tot


@contract("K06", [T + "decay_widths", T + "decay_branching_fractions"], params=dict(w=WID))
def widths(C, P):
    m = model(C, P.w)
    C.eq(m.decay_widths(), C.entries(P.w, lambda k, v: v, total=C.total(P.w)), "partial widths and their sum")
    b = fraction(C, P.w)
    C.eq(m.decay_branching_fractions(), C.entries(P.w, lambda k, v: b(v)), "width over their sum, zero when nothing decays")


def spectra_of(C, P, fs, spectra, total, dnde, what):
    b = fraction(C, P.w)
    each = C.entries(P.w, lambda k, v: b(v) * dnde[k](P.e))
    tot = C.total(each)
    C.eq(spectra(P.e), C.entries(each, lambda k, v: v, total=tot), "branching fraction times the channel's %s spectrum, and their sum" % what)
    C.eq(total(P.e), tot, "total %s spectrum" % what)
    C.eq(C.entries(fs(), lambda k, f: f(P.e)), C.entries(P.w, lambda k, v: C.ite(v > 0, dnde[k](P.e), 0.0 * P.e)), "%s spectra of open channels, zero for closed ones" % what)


@contract("K06", [T + "spectra", T + "total_spectrum", T + "spectrum_funcs"], params=dict(w=WID, dnde=SPEC, e=Energies(E)))
def photon_spectra_of_decays(C, P):
    m = model(C, P.w, dnde=P.dnde)
    spectra_of(C, P, m.spectrum_funcs, m.spectra, m.total_spectrum, P.dnde, "photon")


@contract("K06", [T + "positron_spectra", T + "total_positron_spectrum", T + "positron_spectrum_funcs"], params=dict(w=WID, pos=SPEC, e=Energies(E)))
def positron_spectra_of_decays(C, P):
    m = model(C, P.w, pos=P.pos)
    spectra_of(C, P, m.positron_spectrum_funcs, m.positron_spectra, m.total_positron_spectrum, P.pos, "positron")


@contract("K06", [T + "gamma_ray_lines", T + "positron_lines"], params=dict(w=WID, e1=E, e2=E))
def decay_lines(C, P):
    m = model(C, P.w, lines={"g g": P.e1, "pi0 g": P.e2}, pos_lines={"pi0 g": P.e1})
    b = fraction(C, P.w)
    C.eq(m.gamma_ray_lines(), {"g g": {"energy": P.e1, "bf": b(P.w["g g"])}, "pi0 g": {"energy": P.e2, "bf": b(P.w["pi0 g"])}}, "photon lines: energy and branching fraction")
    C.eq(m.positron_lines(), {"pi0 g": {"energy": P.e1, "bf": b(P.w["pi0 g"])}}, "positron lines: energy and branching fraction")


@contract("K06", [T + "total_conv_spectrum_fn", T + "total_conv_positron_spectrum_fn"], params=dict(lo=E, hi=E, res=Fn(1, 0.01, 0.3), cont=Fn(1), line=E, pcont=Fn(1), pline=E, n=Int(2, 10000), x=E, e=E))
def convolved_decays(C, P):
    """what is convolved with the detector: the total spectrum and the lines of the product"""
    asked = []

    def convolve(e_min, e_max, energy_res, spec_fn=None, lines=None, n_pts=1000):
        asked.append((e_min, e_max, energy_res(P.e), spec_fn(P.x), lines, n_pts))
        return len(asked)
    C.patch("hazma.theory.convolved_spectrum_fn", convolve)

    class Model(C.mod("hazma.theory").TheoryDec):
        def total_spectrum(self, es):
            return P.cont(es)

        def gamma_ray_lines(self):
            return {"g g": {"energy": P.line, "bf": 0.5}}

        def total_positron_spectrum(self, es):
            return P.pcont(es)

        def positron_lines(self):
            return {"e e": {"energy": P.pline, "bf": 0.25}}
    m = Model()
    for f, cont, lines in ((m.total_conv_spectrum_fn, P.cont, {"g g": {"energy": P.line, "bf": 0.5}}), (m.total_conv_positron_spectrum_fn, P.pcont, {"e e": {"energy": P.pline, "bf": 0.25}})):
        for n in ((), (P.n,)):
            got = f(P.lo, P.hi, P.res, *n)
            C.true(got == len(asked), "the convolution is returned")
            a = asked[-1]
            C.eq(a[:3], (P.lo, P.hi, P.res(P.e)), "over the range, with the resolution")
            C.eq(a[3], cont(P.x), "of the continuum of the product")
            C.eq(a[4], lines, "and of its lines")
            if n:
                C.eq(a[5], P.n, "on the number of points asked for")
