"""Single-channel models, the energy resolution and folded spectra."""
from vc.api import contract, Real, Int, Arr, Fn, Choice, Energies
PROPS = ["K05", "K06"]
S = "hazma.single_channel:"
PA = "hazma.parameters"
E = Real(0, None, samp=(1.0, 300.0))
MX = Real(0, None, samp=(50.0, 400.0))
FS = Choice("e e", "mu mu", "e mu", "mu e", "pi0 pi0", "pi pi", "mu pi", "pi pi pi0")
SIG = Real(0, None, closed=True, samp=(0.1, 3.0))


def masses(C, fs):
    sm = C.mod(PA).standard_model_masses
    return [sm[s] for s in fs.split(" ")]


def positron_line(C, fs, cm):
    """energy of the electron of a two-body state"""
    p, m = fs.split(" "), masses(C, fs)
    if len(p) != 2 or "e" not in p:
        return {}
    m1, m2 = m if p[0] == "e" else m[::-1]
    return {fs: (cm ** 2 + m1 ** 2 - m2 ** 2) / (2 * cm)}


@contract("K05", [S + "SingleChannelAnn"], params=dict(mx=MX, fs=FS, old=FS, s=SIG, e_cm=Real(0, None, samp=(100.0, 700.0))))
def single_channel_annihilation(C, P):
    m = C.mod("hazma.single_channel").SingleChannelAnn(mx=3.0, fs=P.old, sigma=P.s)
    m.fs = P.fs
    m.mx = P.mx
    thr = sum(masses(C, P.fs))
    C.eq(m.mx, P.mx, "mass assigned")
    C.eq(m.fs_mass, thr, "threshold of the final state")
    C.true(m.list_annihilation_final_states() == [P.fs], "one final state")
    sig = C.ite(C.or_(P.e_cm < 2 * P.mx, P.e_cm < thr), 0.0, P.s)
    C.eq(m.annihilation_cross_sections(P.e_cm), {P.fs: sig, "total": sig}, "constant cross section above both thresholds")
    bf = C.ite(sig == 0, 0.0, 1.0)
    pl = positron_line(C, P.fs, P.e_cm)
    C.eq(m.positron_lines(P.e_cm), {k: {"energy": v, "bf": bf} for k, v in pl.items()}, "positron line of two-body final states")
    C.eq(m.gamma_ray_lines(P.e_cm), {}, "no photon lines")


@contract("K06", [S + "SingleChannelDec"], params=dict(mx=MX, fs=FS, old=FS, w=Real(0, None, samp=(0.1, 3.0))))
def single_channel_decay(C, P):
    m = C.mod("hazma.single_channel").SingleChannelDec(mx=3.0, fs=P.old, width=P.w)
    m.fs = P.fs
    m.mx = P.mx
    C.eq(m.fs_mass, sum(masses(C, P.fs)), "threshold of the final state")
    C.true(m.list_decay_final_states() == [P.fs], "one final state")
    C.eq(m.decay_widths(), {P.fs: P.w, "total": P.w}, "the given width")
    pl = positron_line(C, P.fs, P.mx)
    C.eq(m.positron_lines(), {k: {"energy": v, "bf": 1.0} for k, v in pl.items()}, "positron line of two-body final states")
    C.eq(m.gamma_ray_lines(), {}, "no photon lines")


@contract(["K05", "K06"], [PA + ":spec_res_fn"], params=dict(ep=E, e=Energies(E), res=Fn(1, 0, None, nonneg=True)))
def resolution_gaussian(C, P):
    r = C.mod(PA).spec_res_fn(P.ep, P.e, P.res)
    s = P.e * P.res(P.e)
    safe = C.ite(s == 0, 1.0, s)
    C.eq(r, C.ite(s == 0, 0.0, C.exp(-(P.ep - P.e) ** 2 / (2 * safe ** 2)) / (C.sqrt(2 * C.pi) * safe)), "normalised Gaussian of width energy times resolution, nothing for an exact detector")


@contract(["K05", "K06"], [PA + ":spec_res_fn"], params=dict(ep=E, es=Arr(E), res=Fn(1, 0, None)))
def resolution_of_arrays(C, P):
    f = C.mod(PA).spec_res_fn
    C.eq(f(P.ep, P.es, P.res), C.each(lambda e: f(P.ep, e, P.res), P.es), "true energies are elementwise")
    C.eq(f(P.es, P.ep, P.res), C.each(lambda e: f(e, P.ep, P.res), P.es), "measured energies are elementwise")
    C.eq(f(P.ep, P.es, lambda e: 0.1), C.each(lambda e: f(P.ep, e, lambda x: 0.1), P.es), "constant resolutions")


@contract(["K05", "K06"], [PA + ":convolved_spectrum_fn"], params=dict(lo=Real(1, None, samp=(1.0, 20.0)), hi=Real(1, None, samp=(60.0, 300.0)), res=Fn(1, 0.05, 0.3), f=Fn(1, 0, None), n=Int(2, 100000, samp=(3, 12)), e1=E, b1=SIG, e2=E, b2=SIG, q=Real(0, 1)),
          requires=lambda P: P.lo < P.hi)
def folded_spectrum(C, P):
    mod = C.mod(PA)
    got, asked = [], []

    def spline(x, y, k=3, ext=0):
        got.append((x, y, k, ext))

    def continuum(es):
        asked.append(es)
        return P.f(es)
    C.extern("scipy.interpolate.InterpolatedUnivariateSpline", spline)
    lines = {"g g": {"energy": P.e1, "bf": P.b1}, "x": {"energy": P.e2, "bf": P.b2}}
    mod.convolved_spectrum_fn(P.lo, P.hi, P.res, continuum, lines, P.n)
    mod.convolved_spectrum_fn(P.lo, P.hi, P.res, None, lines, P.n)
    mod.convolved_spectrum_fn(P.lo, P.hi, P.res, continuum, None, P.n)
    (x, y, k, ext), (x2, y2, _, _), (x3, y3, _, _) = got
    C.true(k == 1 and ext == "raise", "linear interpolation, confined to the range")
    C.eq(x, C.np.geomspace(P.lo, P.hi, P.n), "grid")
    g = mod.spec_res_fn
    C.eq(y2, P.b1 * 2 * g(x, P.e1, P.res) + P.b2 * g(x, P.e2, P.res), "lines: branching fraction times the resolution Gaussian, two photons in g g")
    es = asked[-1]
    C.eq(es[0], P.lo / 10, "the true energies start well below the range")
    C.eq(es[-1], P.hi * 10, "the true energies end well above the range")
    C.eq(y3, C.each(lambda e: C.np.trapezoid(P.f(es) * g(e, es, P.res), es), x), "continuum folded with the resolution over a padded range")
    C.eq(y, y2 + y3, "continuum plus lines")
