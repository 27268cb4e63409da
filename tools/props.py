"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN = ["inputs"]
CF = ["inputs", "configurations"]
HI = ["inputs", "histories"]

# id: title, statement, over, quantifier text, why tests cannot, files, mechanism [(name, where)]
P = {
 "K01": ("Two-body kinematics, flux factors and two-body integrals",
  "For all masses and every centre-of-mass energy above both thresholds, the triangle function is symmetric and equals its defining polynomial, the two-body momentum puts both particles on shell with energies adding up to the energy, and the flux factor of a cross section is one over four times momentum times energy. A two-body width or cross section is the angular integral of the squared matrix element, evaluated on exactly those on-shell balanced momenta, times that flux, and one (not zero) is the default squared matrix element. Scalars and arrays agree.",
  IN, "all masses >= 0, all centre-of-mass energies above threshold, all squared matrix elements, arrays of any length",
  "the tests compare a few mass points with reference numbers; they cannot quantify over masses, energies or matrix elements",
  ["hazma/utils.py", "hazma/phase_space/_two_body.py", "hazma/phase_space/_utils.py"],
  [("kinematic helper functions", "hazma/utils.py"), ("two-body integrator", "hazma/phase_space/_two_body.py")]),
 "K02": ("Monte Carlo phase-space events are on shell, balanced and correctly weighted",
  "For every number of final-state particles, every mass list below threshold, every batch size and every random draw, generated events conserve four-momentum, lie on the mass shells after the rescaling, and carry the massive phase-space weight times the squared matrix element. Integrals, widths, cross sections, their errors and the histograms of energies and pair masses are the stated means and sums over all batches, and depend only on energy, masses and seed, not on what the generator was asked before.",
  ["inputs", "histories"], "all particle numbers, masses, energies, random draws, batch sizes and sequences of setter calls",
  "tests draw a few seeds for a few mass lists and compare integrals at the per-cent level; they cannot cover all draws, particle numbers or setter histories",
  ["hazma/phase_space/_rambo.py", "hazma/phase_space/_utils.py"],
  [("event generation and weights", "hazma/phase_space/_rambo.py"), ("histogram limits", "hazma/phase_space/_utils.py")]),
 "K03": ("Three-body phase space is integrated over the Dalitz region",
  "For all masses below threshold and every squared matrix element, three-body widths and cross sections integrate the squared matrix element over exactly the kinematically allowed region of the two invariant masses with the standard prefactor, and the allowed bounds are attained only at collinear configurations. Single-particle energy spectra and pair-mass spectra are the corresponding partial integrals for each particle and pair, with the arguments of the squared matrix element in their documented order. The momenta offered to a squared matrix element are on shell and balanced.",
  IN, "all masses, energies, squared matrix elements and points of the Dalitz region",
  "tests compare a few final states at one matrix element; they cannot quantify over matrix elements or masses",
  ["hazma/phase_space/_three_body.py", "hazma/phase_space/_utils.py"],
  [("Dalitz integration", "hazma/phase_space/_three_body.py"), ("limits", "hazma/phase_space/_utils.py")]),
 "K04": ("Phase-space distributions are normalised, and expectation values weight by them",
  "For every binning and every list of bin contents, a one-dimensional phase-space distribution is its bin contents divided by their bin-width-weighted sum (left unchanged when that sum is zero, undefined when it is negative), evaluates to zero outside the bin centres and linearly between them, and its expectation values are the integrals of function times density by the chosen rule. Kinematic limits of energies and pair masses are those of the final state.",
  IN, "all bin edges, bin contents, functions and integration rules",
  "tests do not construct distributions from arbitrary histograms",
  ["hazma/phase_space/_dist.py", "hazma/phase_space/_utils.py", "hazma/phase_space/_base.py"],
  [("normalised histogram", "hazma/phase_space/_dist.py")]),
 "K05": ("Annihilation spectra are branching-fraction-weighted sums over channels",
  "For every annihilating model, centre-of-mass energy and photon, positron or neutrino energy, the branching fractions are the cross sections over their sum (all zero when it vanishes), and the total spectrum of each species is the sum over final states of branching fraction times that channel's spectrum. Lines are reported with their energy and branching fraction, and the spectrum folded with an energy resolution is the folded continuum plus each line as a normalised Gaussian.",
  CF, "all models (any channel list, cross sections and spectra), all energies, scalars and arrays",
  "the tests exercise one or two concrete models at fixed couplings",
  ["hazma/theory/_theory_ann.py", "hazma/theory/_theory_cmb.py", "hazma/theory/_theory_gamma_ray_limits.py", "hazma/single_channel.py"],
  [("annihilation theory base class", "hazma/theory/_theory_ann.py"), ("single-channel models", "hazma/single_channel.py")]),
 "K06": ("Decay spectra are width-weighted sums over channels",
  "For every decaying model and energy, the total width is the sum of partial widths, the total photon, positron and neutrino spectra are the sums over final states of branching fraction times channel spectrum, and lines contribute with their branching fraction. The spectrum folded with an energy resolution is the folded continuum plus each line as a normalised Gaussian.",
  CF, "all decaying models, all energies, scalars and arrays",
  "the tests exercise one concrete model at fixed couplings",
  ["hazma/theory/_theory_dec.py", "hazma/single_channel.py"],
  [("decay theory base class", "hazma/theory/_theory_dec.py")]),
 "K07": ("Boosting a spectrum is the exact flat-angle Lorentz average",
  "For every rest-frame spectrum, parent velocity and product mass, the boosted spectrum is the integral of the rest-frame spectrum over the allowed rest-frame energies with the Lorentz kernel, a mono-energetic line becomes the corresponding box with unit integral, and zero velocity returns the rest-frame spectrum. Energies below threshold give zero, and arrays agree with scalars.",
  IN, "all spectra, velocities, masses and energies",
  "tests check a handful of velocities and spectra",
  ["hazma/boost.py", "hazma/spectra/boost.py", "hazma/utils.py"],
  [("boost integrals", "hazma/spectra/boost.py")]),
 "K08": ("Final-state spectra convolve particle spectra over phase space",
  "For every final state of known particles, with any number of bodies, the photon, positron and neutrino spectrum is the sum over all its particles of that particle's decay spectrum averaged over that particle's own energy distribution, at its fixed energy when there are two, plus, for photons unless switched off, final-state radiation of every charged particle, averaged over the masses of its pairs. With three or more bodies, final-state photons, positrons and neutrinos enter themselves with their own energy distribution, in the product and flavor they are. Phase space is generated at the given energy, for the masses of the particles, weighted with the given squared matrix element. Energies below threshold, unknown particles and unknown flavors are refused; one energy gives a number.",
  CF, "all final states, energies, decay spectra, energy distributions and squared matrix elements",
  "tests sample a few final states; most particles, and radiation, are never exercised",
  ["hazma/spectra/_nbody.py"],
  [("n-body spectra", "hazma/spectra/_nbody.py")]),
 "K09": ("Final-state radiation follows the splitting functions",
  "For every charge, mass, energy and photon energy, the approximate final-state-radiation spectrum of a charged scalar or fermion equals the splitting function of its spin with the collinear logarithm, vanishes outside the kinematic range and is never negative; both particles of a pair radiate; one energy gives a number. The photon spectrum of an exact radiative squared matrix element off a charged pair (quadrature backend) is E/(4 pi^2) times the pair's phase-space integral of the squared matrix element at the recoil energy, over the non-radiative integral, with every momentum on shell, zero outside the kinematic range; impossible requests are refused.",
  IN, "all energies, masses, charges and photon energies",
  "tests sample few energies",
  ["hazma/spectra/altarelli_parisi.py", "hazma/spectra/_fsr.py"],
  [("splitting functions", "hazma/spectra/altarelli_parisi.py")]),
 "K10": ("The relic-density solver integrates the Boltzmann equation it states",
  "For every model and temperature, equilibrium densities have the statistics of the particle, the derivative functions handed to the solver are the exact derivatives of the functions they belong to, the Jacobian is the derivative of the right-hand side, and the thermal average uses the stated kernel and threshold. The relic density is the final abundance times mass times today's entropy density over the critical density.",
  IN, "all masses, temperatures, degrees of freedom and cross sections",
  "tests integrate a few models and compare a number; derivative and limit identities are not checked at all",
  ["hazma/relic_density/__init__.py", "hazma/relic_density/thermodynamic_functions.py", "hazma/relic_density/thermal_functions.py"],
  [("Boltzmann equation", "hazma/relic_density")]),
 "K11": ("Gamma-ray limits follow from expected counts and the observed flux",
  "For every model, target and instrument, the binned limit on the annihilation cross section or the decay rate is the largest one for which no energy bin exceeds the observed flux by the chosen number of upper errors (or, with the chi-squared method, the excesses reach the critical chi squared), infinite without a signal; the unbinned limit reaches the chosen signal over square root of background in the best energy window; the Fisher limit is the chosen number of standard deviations of the rate after marginalising over the background parameters. Fluxes multiply the dark-matter factor of the target, solid angle, effective area and observation time as stated. Scans over two parameters report each constraint at the grid point of those parameter values, and the limit objects apply the model's limits with their own data, level and method; the relic-density limit is the cross section of the model with the observed relic density and leaves the model handed in untouched.",
  CF, "all spectra, effective areas, backgrounds, fluxes and targets",
  "tests do not run the limit machinery",
  ["hazma/theory/_theory_gamma_ray_limits.py", "hazma/theory/_theory_dec.py", "hazma/gamma_ray_parameters.py", "hazma/limits"],
  [("limits", "hazma/theory/_theory_gamma_ray_limits.py")]),
 "K12": ("CMB limits follow from the energy-injection efficiency",
  "For every annihilating model, the effective efficiency of photons or positrons is the integral of energy times spectrum times tabulated injection efficiency, from the lowest tabulated energy to half the centre-of-mass energy, over the centre-of-mass energy, plus the lines; positrons count twice for their electrons. The cross-section limit is the annihilation-parameter bound times mass over the sum of both efficiencies, in the theory class and in the limit object alike. The centre-of-mass energy is the one of the relative velocity at recombination for the given kinetic-decoupling temperature, and the tables are those shipped.",
  CF, "all spectra, masses and efficiencies",
  "tests do not check the integrals",
  ["hazma/theory/_theory_cmb.py", "hazma/cmb.py", "hazma/limits"],
  [("efficiency integrals", "hazma/theory/_theory_cmb.py")]),
 "K13": ("Scalar-mediator cross sections, widths and spectra are consistent",
  "For all masses and couplings, the partial widths of the scalar mediator follow from its couplings (fermion pairs, photons, pions at leading chiral order), vanish below threshold and add up to the total width; after any assignment the model equals a new one of the new parameters, and Higgs-portal and heavy-quark models carry exactly the couplings they imply. Cross sections are evaluated at the present parameters, width and vacuum value, per channel and target. Each annihilation channel's photon spectrum is its radiation plus two decay spectra of half the energy, positrons come from the positive particle, mediator pairs decay with their branching fractions, lines sit at half the energy. Radiation off lepton and pion pairs has its tree-level form inside phase space and vanishes outside.",
  HI, "all couplings, masses, energies and histories of assignments",
  "tests compare with stored numbers at few points",
  ["hazma/scalar_mediator"],
  [("scalar mediator model", "hazma/scalar_mediator")]),
 "K14": ("Vector-mediator cross sections, widths and spectra are consistent",
  "For all masses and couplings, the partial widths of the MeV-scale vector mediator follow from its couplings (fermion pairs, pion pairs, pion and photon by the anomaly), vanish below threshold and add up to the total width; after any assignment the model equals a new one of the new parameters, and kinetic-mixing models carry exactly the couplings of their mixing parameter. Cross sections are evaluated at the present parameters and width; the three-pion cross section is the integral over the pair mass. Each annihilation channel's photon spectrum is its radiation plus the decays of its particles at the energies two-body kinematics gives them, positrons come from the positive particle, mediators decay with their branching fractions, lines sit at their kinematic energies. Radiation off lepton and pion pairs has its tree-level form inside phase space and vanishes outside.",
  HI, "all couplings, masses, energies and histories of assignments",
  "tests compare with stored numbers at few points",
  ["hazma/vector_mediator/__init__.py", "hazma/vector_mediator/_vector_mediator_widths.py", "hazma/vector_mediator/_vector_mediator_cross_sections.py", "hazma/vector_mediator/_vector_mediator_fsr.py", "hazma/vector_mediator/_vector_mediator_spectra.py", "hazma/vector_mediator/_vector_mediator_positron_spectra.py"],
  [("vector mediator model", "hazma/vector_mediator/__init__.py")]),
 "K15": ("Hadronic form factors: widths and cross sections follow from the current",
  "For every vector form factor, final state, mass, energy and choice of couplings: the final state has the masses of the parameter table; the integrated squared current, the width of a vector boson and the annihilation cross section are the phase-space integrals of the form factor with the stated prefactors, vanish below threshold, and scale and symmetrise as their definitions demand; energy and pair-mass distributions are the corresponding partial integrals, normalised, with ascending bins. Currents of three and four mesons are conserved and have the exchange symmetries of the final state. Form factors are linear in the couplings, and arrays of energies agree with single energies. Resonances have their mass and width on the peak, and the fine-structure constant runs by the stated vacuum polarisation.",
  IN, "all form factors, masses, energies, couplings and momenta",
  "tests sample few points",
  ["hazma/form_factors/vector"],
  [("form factor base classes", "hazma/form_factors/vector/_base.py"), ("two-, three- and four-body integrals", "hazma/form_factors/vector"), ("resonances", "hazma/form_factors/vector/_utils.py")]),
 "K16": ("Right-handed-neutrino widths, branching fractions and spectra are consistent",
  "For all masses, mixings and lepton flavours, and after any assignment of them, partial widths of the right-handed neutrino vanish below threshold, scale with the square of the mixing and are the stated functions of mass, flavour and pion form factor; the total width is their sum, with both members of a charge-conjugate pair counted once each. The squared amplitude of every three-body channel is that of its particles in the order they are listed (for two different leptons it knows which one carries the flavour of the neutrino), and for a pion pair its integral over the angle is the integrand of the width. The photon, positron and neutrino spectra of a channel are those of its own particles, once, at the mass of the right-handed neutrino with that squared amplitude, zero below threshold and with three flavours for neutrinos. Lines belong to final states of the model and have the two-body energies.",
  CF, "all masses, mixings and flavours, all form factors, all energies, all assignments",
  "tests do not cover the model; wrong particles, kinematics or multiplicities give plausible numbers",
  ["hazma/rh_neutrino/_model.py", "hazma/rh_neutrino/_configure.py", "hazma/rh_neutrino/_widths.py", "hazma/rh_neutrino/_spectra.py", "hazma/rh_neutrino/_utils.py"],
  [("model and histories", "hazma/rh_neutrino/_model.py"), ("widths and squared amplitudes", "hazma/rh_neutrino/_widths.py"), ("spectra", "hazma/rh_neutrino/_spectra.py")]),
 "K17": ("Targets, backgrounds, measured fluxes and evaporation spectra follow definitions",
  "Flux measurements built from data files, and those shipped, hold the bins, fluxes and errors of their tables in order, with the energy resolution of the instrument, and leave the caller's arrays alone. Every background model is its stated function of energy and its gradient is the derivative with respect to its parameters, in the order it reports them. Tabulated effective areas, energy resolutions and evaporation spectra interpolate their tables and stay inside the tabulated range. Solid angles of cones and boxes, unit constants and the quark mixing matrix equal their definitions (the mixing matrix is unitary).",
  CF, "all energies, model parameters, tables of measurements, angles and tabulated black-hole masses",
  "tests sample few entries",
  ["hazma/background_model.py", "hazma/flux_measurement.py", "hazma/gamma_ray_parameters.py", "hazma/pbh.py", "hazma/parameters.py", "hazma/utils.py"],
  [("data descriptions", "hazma/background_model.py"), ("flux measurements", "hazma/flux_measurement.py")]),
 "K18": ("Compiled decay kernels give boosted decay spectra",
  "For every parent energy and product energy, the compiled muon, pion and kaon decay kernels equal the flat-angle Lorentz average of the rest-frame decay spectrum, vanish outside the kinematic range and reduce to the rest-frame spectrum for a parent at rest.",
  IN, "all parent and product energies",
  "tests compare tables at fixed energies",
  ["rust/hazma_core/src"],
  [("decay kernels", "rust")]),
 "K19": ("Compiled table interpolation is exact at nodes and confined to the table",
  "For every table of increasing abscissae and every query, linear interpolation returns the chord of the bracketing nodes, reproduces nodes exactly and returns the stated fill value outside the table; the bracketing search always terminates inside the table.",
  IN, "all increasing tables of any length and all queries",
  "tests use small tables",
  ["rust"],
  [("interpolation", "rust")]),
 "K20": ("Compiled boost primitives obey relativistic kinematics",
  "For every boost velocity and energy, the compiled boost factors, boosted energies, integration limits and line boxes obey relativistic kinematics: the product of velocity and Lorentz factor relations hold, limits are the images of collinear emission and boxes integrate to one.",
  IN, "all velocities, masses and energies",
  "tests use few points",
  ["rust"],
  [("boost primitives", "rust")]),
 "K21": ("GeV-scale vector mediator: widths, cross sections, spectra per channel agree",
  "For all masses and couplings of the GeV-scale vector mediator: partial widths are the tree-level ones of the leptons, neutrinos (one chirality) and dark matter and those of each hadronic channel's own form factor, and the total is their sum; after any history of evaluations and assignments, of masses, couplings, mixing parameter or B-L coupling, widths and couplings are those of a new model of the present parameters, and derived couplings cannot be assigned. Cross sections are the s-channel resonance with the present total width, or that of the channel's form factor, vanish below threshold, pairs of mediators count once; the relic density averages the chosen channels thermally. Every channel's photon, positron and neutrino spectrum folds the decay spectrum of each final particle with that particle's own energy, or energy distribution, and adds radiation of the charged pairs; mediator pairs decay with their branching fractions and are boosted; lines and neutrino totals are weighted with branching fractions.",
  HI, "all masses, couplings, energies, energy distributions, decay spectra and histories of assignments",
  "there are no tests of this model",
  ["hazma/vector_mediator/_gev/model.py", "hazma/vector_mediator/_gev/cross_sections.py", "hazma/vector_mediator/_gev/spectra.py", "hazma/vector_mediator/_gev/positron.py", "hazma/vector_mediator/_gev/neutrino.py", "hazma/vector_mediator/_gev/thermal_cross_section.py"],
  [("model and width cache", "hazma/vector_mediator/_gev/model.py"), ("spectra of the channels", "hazma/vector_mediator/_gev/spectra.py")]),
 "K22": ("Tabulated decay spectra are boosted rest-frame spectra of their tables",
  "For every tabulated particle, positron and neutrino spectrum functions are, at rest, the interpolation of the particle's own shipped table times the number of tabulated particles (or plus the tabulated lines), zero above the table's end point and below the electron mass, and zero for particle energies below its mass; in flight the boost of exactly that spectrum; one energy gives a number, an array an array, one flavor the row of that flavor. Tables of one decay agree with each other on the number of leptons (for the particles whose leptons all come from pions). Compiled spectra are passed energies, flavor and mode unchanged.",
  HI, "all particles, flavors, decay modes, particle energies and product energies",
  "tests compare a few energies with stored numbers",
  ["hazma/spectra/_positron/_utils.py", "hazma/spectra/_positron/__init__.py", "hazma/spectra/_neutrino/_utils.py", "hazma/spectra/_neutrino/__init__.py", "hazma/spectra/_photon/__init__.py"],
  [("tables at rest and boosted", "hazma/spectra/_positron/_utils.py"), ("neutrino tables", "hazma/spectra/_neutrino/_utils.py")]),
}

NOT_YET = {
 "K18": "the kernels are Rust with an external build (pyo3, rayon) that cannot be built or given to an installed Rust verifier (verus, kani) offline without rewriting them, and a rewritten copy would be a model",
 "K19": "no contracts for the Rust interpolation have been written yet",
 "K20": "no contracts for the Rust boost primitives have been written yet",
}
TECH = "contract-based deductive verification of the real source (symbolic execution of the instrumented functions, obligations by algebraic normal form, z3, cvc5)"
NOTE = ("Every obligation of every contract of this property is generated from the current source on each run and discharged for all inputs of the stated domain; "
        "real arithmetic stands for floating point; numpy/scipy primitives, the verifier in /verif/vc and the SMT solvers are trusted; a failed obligation is searched for a failing input on the real code.")


def main():
    done = set()
    d = os.path.join(HERE, "contracts")
    for f in os.listdir(d):
        if f.endswith(".py"):
            m = re.search(r"^PROPS\s*=\s*(\[.*?\])", open(os.path.join(d, f)).read(), re.M | re.S)
            done |= set(eval(m.group(1))) if m else set()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as o:
        for k, (t, s, ov, q, w, fs, ms) in P.items():
            assert len(t) <= 80, (k, len(t))
            o.write(json.dumps({"id": k, "title": t, "statement": s, "quantifier": {"over": ov, "text": q}, "why_tests_cant": w,
                                "anchors": {"files": fs, "mechanism": [{"name": a, "where": b} for a, b in ms]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, mpmath, sys; sys.path.insert(0, \".\"); import vc.api' && mkdir -p evidence replays",
         "checks": [{"property": k, "quick_cmd": "python3-vt -m vc.run %s" % k, "thorough_cmd": "python3-vt -m vc.run %s --tier thorough" % k,
                     "evidence_file": "evidence/%s.json" % k, "technique": TECH, "level": "proof", "level_note": NOTE} for k in P if k in done],
         "not_applicable": [{"property": k, "reason": NOT_YET.get(k, "no contract written yet")} for k in P if k not in done],
         "notes": "No hooks are needed in /repo: the functions are instrumented mechanically from the source on every run. Repairs of genuine defects are listed in known_findings.json."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    rows = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
    sd = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(sd)):
        j = json.load(open(os.path.join(sd, b, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (b, j["property"], j["what_it_breaks"], j["needs"]))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(open(os.path.join(HERE, "tools", "DESIGN.in.md")).read().replace("SEEDED_TABLE", "\n".join(rows)))
    print(sorted(done))


main()
