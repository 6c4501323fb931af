#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
FI, KC, RE, UT, TE = ("src/kcorrect/%s.py" % n for n in ("fitter", "kcorrect", "response", "utils", "template"))
P = []


def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


add("C01", "Template fits are the optimal nonnegative weighted fit",
    "For every object whose redshift lies in the configured range (both ends included), the fitted coefficients are finite, nonnegative and minimise the inverse-variance-weighted squared difference between the measured fluxes and the templates' fluxes at that redshift. "
    "A band with zero inverse variance has no influence, whatever finite flux it carries, and an object with a redshift outside the range gets all-zero coefficients instead of an error. "
    "Scaling an object's fluxes by a positive factor, and its inverse variances to match, scales its coefficients by that factor.",
    ["inputs", "configurations"],
    "every combination of band count, template count, flux sign/size pattern, zero-weight pattern and redshift position (ends, grid points, between, outside)",
    "The tests fit all-ones fluxes with all-ones weights at one redshift and look only at shape and sign; optimality, weight patterns and range ends are never examined.",
    [FI], [("weighted design matrix and NNLS", FI + ":_fit_coeffs"), ("redshift grid and interpolation", FI + ":__init__/_calc_Amatrix")],
    [("Amatrix", "interpolator of template fluxes over redshift", FI)], ["fit_coeffs()"])

add("C02", "A catalogue is processed exactly as its objects one by one",
    "For every operation that accepts many objects (fitting, flux reconstruction in input or output bands, K-corrections, absolute magnitudes with any choice of optional outputs, derived quantities), row i of the result is what the same operation returns for object i alone, whatever the other rows, their order or their number, a single-row catalogue included. "
    "Results have the documented shapes: one leading axis per object exactly when redshift is an array. "
    "Lists, tuples and arrays of any floating type or memory layout holding the same values give the same results.",
    ["inputs", "configurations"],
    "every catalogue composed from a small set of object kinds (ordinary, zero fit, missing bands, negative flux, range ends), every order and length up to the bound, every container kind",
    "The tests use one scalar case and one two-row case with identical all-ones photometry and compare sizes only.",
    [FI, KC], [("scalar/array dispatch", FI + ":_process_inputs"), ("single-object path", FI + ":fit_coeffs"), ("masking of zero-fit rows", KC + ":kcorrect"), ("array branches", KC + ":absmag, derived")],
    [], ["fit_coeffs()", "reconstruct()", "reconstruct_out()", "kcorrect()", "absmag()", "derived()"])

add("C03", "K-corrections relate each output band to its mapped observed band",
    "For every object with a nonzero fit, the K-correction for each output band is -2.5 log10 of the fit's flux in the observed band mapped to that output band, at the object's redshift, over the fit's flux in the output band, blueshifted by the requested band shift, at rest; it is exactly zero for an object with all-zero coefficients and independent of the overall scale of the coefficients. "
    "Any map from output bands to observed bands is honoured (repeats, reorderings, fewer or more output than observed bands), and by default output bands and map are the observed bands. "
    "With equal bands the K-correction vanishes at zero redshift, and equals -2.5 log10(1+z) when the band shift equals the redshift z.",
    ["inputs", "configurations"],
    "every map of up to 3 output bands onto 3 observed bands, every coefficient support pattern, redshift and band shift positions",
    "The tests only check the number of values for default maps and no band shift.",
    [KC, FI], [("band index map", KC + ":_set_imap"), ("ratio of reconstructed fluxes", KC + ":kcorrect"), ("band shift normalisation", FI + ":_reconstruct")],
    [("imap", "index of the mapped observed band for each output band", KC)], ["kcorrect()"])

add("C04", "Reconstructed fluxes are those of the fitted spectrum",
    "For any coefficients, any redshift in the configured range (both ends included) and any band shift, the reconstructed AB fluxes in the input and output bands equal the synthetic fluxes, through those bands, of the coefficient-weighted sum of templates redshifted by (1+z)(1+band shift) with its bolometric flux conserved, divided by (1+band shift): exactly (to rounding) at redshifts of the grid and by linear interpolation between neighbouring grid redshifts. "
    "They are linear in the coefficients. "
    "A redshift that, combined with the band shift, falls outside the configured range raises ValueError and never returns a value.",
    ["inputs", "configurations"],
    "every one-hot, zero and mixed coefficient pattern, every position of redshift and band shift relative to the grid, several grids and band sets",
    "The tests only check that reconstructed fluxes of one fit are nonnegative.",
    [FI, KC, TE], [("design matrix on the redshift grid", FI + ":_calc_Amatrix"), ("interpolation and band shift", FI + ":_reconstruct"), ("output-band matrix", KC + ":__init__")],
    [("redshifts", "redshift grid", FI)], ["reconstruct()", "reconstruct_out()"])

add("C05", "Absolute magnitudes follow m - DM - K with -9999 for undefined values",
    "In every output band whose mapped observed band has positive flux and positive inverse variance the absolute magnitude is the AB apparent magnitude minus the distance modulus minus the K-correction, and in every other band it is exactly -9999; the distance modulus comes from the object's cosmology, or from the luminosity distance in Mpc if one is given, with identical results if the two agree. "
    "The optional reconstructed magnitude is that of the fit's rest-frame flux in the (band-shifted) output band at that distance and -9999 if that flux is not positive; the optional 1-sigma limit replaces the flux by its error and is given wherever the inverse variance is positive and the fit is not all zero, -9999 elsewhere. "
    "Requested optional outputs are returned after the absolute magnitude in the order reconstructed, limit, K-correction, and asking for one does not change another.",
    ["inputs", "configurations"],
    "every sign pattern of flux and inverse variance, every subset of optional outputs, distance given or not, band shift, band maps, scalar or array",
    "The tests check only output shapes, with all-positive photometry and no distance, band shift or band map.",
    [KC], [("good/bad masks and distance modulus", KC + ":absmag")], [], ["absmag()"])

add("C06", "Derived quantities are the fit-weighted template properties",
    "Stellar mass and integrated star formation returned for an object are the coefficient-weighted sums of the templates' properties scaled by the squared luminosity distance relative to 10 pc (from the cosmology, or from a given distance in Mpc with identical results if the two agree); metallicity is the surviving-mass-weighted mean and the birth parameters are the ratios of recent (50, 300, 1000 Myr) to integrated star formation, so these four do not depend on distance or on the overall scale of the fit. "
    "The mass-to-light ratio in each output band is the surviving mass over the luminosity of the fit in that (band-shifted) band at rest in units of the response's solar luminosity, or in maggies at 10 pc for a response without a solar magnitude, for any number of output bands. "
    "An object with all-zero coefficients gets zero for every quantity.",
    ["inputs", "configurations"],
    "every coefficient support pattern, distance given or not, output band sets smaller, equal and larger than the input set, bands without a solar magnitude, scalar and array",
    "The tests only check the number of keys and shapes for default output bands.",
    [KC], [("weighted sums and guards", KC + ":derived")], [], ["derived()"])

add("C07", "Monte Carlo output is the ordinary computation on perturbed fluxes",
    "With mc = M > 0, fitting returns the same best-fit coefficients as without, plus M perturbed (AB) flux sets and M coefficient sets with the draw index last, for one object, a one-row catalogue or many; perturbed fluxes differ from the measured ones only in bands with positive inverse variance, by an independent unit-normal draw times the band's error, and each coefficient set is the ordinary fit of its flux set with the unperturbed weights. "
    "An object outside the redshift range gets unperturbed fluxes and zero coefficients. "
    "Monte Carlo absolute magnitudes and derived quantities are, draw by draw, what the ordinary methods return for that draw's AB fluxes and coefficients, for any output bands and optional outputs.",
    ["inputs", "configurations"],
    "every scripted noise sequence over a small alphabet, weight patterns, mc counts, scalar/1-row/n-row catalogues, redshift in or out of range, output band sets",
    "No test uses mc at all.",
    [FI, KC], [("noise and refit loop", FI + ":_fit_coeffs"), ("reshaping of results", FI + ":fit_coeffs"), ("per-draw loops", KC + ":absmag_mc, derived_mc")],
    [], ["fit_coeffs(mc=)", "absmag_mc()", "derived_mc()"])

add("C08", "SDSS catalogue magnitudes convert to maggies and AB as defined",
    "Asinh magnitudes convert to maggies by inverting the SDSS asinh magnitude definition with the per-band softening parameters, errors are propagated by its derivative, and Galactic extinction multiplies maggies by 10^(0.4 A) and inverse variances by 10^(-0.8 A), leaving the signal-to-noise ratio unchanged. "
    "The SDSS AB correction adds -0.036, 0.012, 0.010, 0.028, 0.040 magnitudes to u, g, r, i, z (or the given offsets), scaling inverse variances by the inverse square of the flux factor. "
    "Both act per band and per object identically for [5] and [N,5] input, leave their inputs untouched, and return the inverse variance exactly when errors were given.",
    ["inputs"],
    "every pattern of magnitude regime (bright, faint, negative flux), extinction and error presence over bands, [5] and [N,5] shapes, alternative offsets",
    "Tests call these only with all-ones values and check shapes of downstream results.",
    [UT, KC], [("asinh inversion", UT + ":sdss_asinh_to_maggies"), ("AB factors", UT + ":sdss_ab_correct"), ("catalogue entry point", KC + ":fit_coeffs_asinh")], [], ["sdss_asinh_to_maggies()", "sdss_ab_correct()", "fit_coeffs_asinh()"])

add("C09", "Error floors only lower inverse variances, to exactly the floor",
    "After applying a fractional error floor, every band with positive inverse variance and nonzero flux has fractional error at least the floor of its own band: it is set to exactly the floor where it was smaller and left unchanged where it was not. "
    "Bands with zero or negative inverse variance and bands with zero flux are left unchanged; the sign of the flux does not matter. "
    "The result for a catalogue is row by row that for single objects, the caller's arrays are not modified, and applying the floor twice is the same as once.",
    ["inputs"],
    "every pattern over bands and objects of flux sign, ivar regime (zero, negative, below, at, above floor) and per-band floors",
    "No test calls it.",
    [UT], [("floor comparison and replacement", UT + ":error_floor")], [], ["error_floor()"])

add("C10", "Maggies convert to physical flux density at the effective wavelength",
    "Converting maggies to flux density returns, per band in the order given, the response's effective wavelength and the flux of the AB standard source (3631 Jy as erg/s/cm^2/A) at that wavelength times the maggies; inverse variances, when given, scale by the inverse square. "
    "One object and a catalogue give the same values, repeated or reordered bands are allowed, and the result does not depend on which responses had been loaded before.",
    ["inputs", "histories"],
    "every ordered band list up to length 3 (with repeats), shapes, ivar presence, registry histories",
    "No test calls it.",
    [UT, RE], [("AB source spectrum", UT + ":sed_ab"), ("conversion", UT + ":maggies2flambda")], [], ["maggies2flambda()", "sed_ab()"])

add("C11", "Synthetic photometry is the AB-normalised photon-weighted mean flux",
    "Projecting a spectrum onto a bandpass gives the integral of flux x response x wavelength divided by the same integral for the AB source, for every shipped or user-defined bandpass and every spectrum sampling, including bandpasses narrower than the spectrum's sampling or only partly covered by it (spectrum zero outside its range); the AB source itself projects to 1 and a spectrum that does not overlap the bandpass to 0. "
    "The result is linear in the spectrum, independent of the response's normalisation and of the order in which its samples are given, and each of several spectra is projected independently of the others (one value per spectrum, at any count). "
    "Passing an SED object at any redshift or the equivalent wavelength and flux arrays (1-D or 2-D) gives the same result.",
    ["inputs", "configurations"],
    "every shipped bandpass, every relative position of bandpass and spectrum range/sampling, number of spectra, call form, redshift",
    "Tests project one AB source onto one bandpass and check one set of templates is positive.",
    [RE, UT, TE], [("integration grid, numerator, denominator", RE + ":project"), ("AB source", UT + ":sed_ab")], [], ["Response.project()"])

add("C12", "Bandpass summary quantities describe the stored response curve",
    "For every shipped or user-defined response: wavelengths are increasing with each response value kept with its wavelength whatever the input order; the effective wavelength is exp of the response-weighted mean log-wavelength (weights R dlnlambda); the FWHM limits are the outermost half-maximum points of the curve starting from each end (the end of the grid if it is already above half maximum there) and FWHM is their difference. "
    "The solar absolute magnitude and the Vega-to-AB offset are the AB magnitudes of the shipped Sun and Vega models through the response, and are undefined (None) exactly when the model's flux through the response is not positive. "
    "None of these depends on how the response was created (arrays, text file, FITS file) or on what was loaded before.",
    ["inputs", "configurations"],
    "every shipped response and every small synthetic curve shape (edges above half maximum, multiple peaks, unsorted input), every creation route",
    "Tests check two responses' Vega and solar values only.",
    [RE, UT], [("setup of derived attributes", RE + ":_setup"), ("half-maximum search", RE + ":set_fwhm_limits"), ("Sun and Vega models", RE + ":set_solar_magnitude, set_vega2ab")], [], ["Response attributes"])

add("C13", "The response registry survives any history of loads and failures",
    "There is one shared registry of responses: every handle to it sees every loaded response, and a response once loaded remains the same object, across any sequence of loads, failed loads and constructions of fitting objects, until it is explicitly reloaded (which re-reads its file). "
    "A load of a missing or invalid response raises, every time it is attempted, and leaves the registry, including an earlier good entry of that name, as it was. "
    "Listing responses returns exactly the names of the .dat files of the directory asked for, and with validity checking exactly those that can be read, which are then in the registry.",
    ["histories", "fault_sequences"],
    "every sequence of registry operations up to the depth bound over good, missing, invalid, replaced and deleted response files",
    "Tests load a response once and look it up.",
    [RE], [("singleton metaclass", RE + ":ResponseDictSingleton"), ("load", RE + ":load_response"), ("listing", RE + ":all_responses")], [("registry", "name to response map shared by all handles", RE)], ["ResponseDict()", "all_responses()"])

add("C14", "An SED's redshift state is a function of the last redshift set",
    "After any sequence of redshifting, projecting, saving, re-reading and being used to build fitting objects, an SED's observed wavelengths and fluxes are its rest-frame ones times and divided by (1+z) for the last redshift set (zero after reading from a file or being used by a fitter), so its bolometric flux is conserved, its interpolator matches them, and its rest-frame arrays never change. "
    "The same redshift always gives the same state whatever came before.",
    ["histories"],
    "every sequence of SED operations up to the depth bound, with and without interpolation, one or several spectra",
    "One test sets one redshift once.",
    [TE, FI], [("redshifting from the rest frame", TE + ":set_redshift"), ("interpolator refresh", TE + ":set_interp"), ("return to z=0", FI + ":_calc_Amatrix")], [("redshift, wave, flux, interp", "current redshift state", TE)], ["SED attributes", "Response.project()"])

add("C15", "Spectra, templates and responses survive FITS round trips",
    "Writing spectra (as a table or as binary images), template sets with all their physical properties, or responses to FITS and reading them back gives equal values (to single precision for spectra stored as tables), counts and names, at any redshift state, repeatedly, and for any extension name; the rest-frame spectrum is what is stored. "
    "Overwriting replaces the whole earlier content; not overwriting adds spectra or responses as a further extension that leaves the earlier ones readable, and refuses for template sets. "
    "Of a table with several rows only the first is read.",
    ["histories", "configurations"],
    "every sequence of write/read operations up to the depth bound over object kinds, extension names, overwrite flag and redshift state",
    "Tests round-trip one single-spectrum SED and one response with default options.",
    [TE, RE], [("SED I/O", TE + ":SED.tofits/fromfits"), ("Template I/O", TE + ":Template.tofits/__init__"), ("Response I/O", RE + ":tofits/fromfits")], [], ["FITS files", "object attributes"])

add("C16", "A saved K-correction object reloads as the same object",
    "Saving a K-correction object and reloading it, in any process and whatever responses were loaded before, any number of times, onto a new or an existing object, gives an object with the same bands, output bands, band map, redshift range and grid, AB-correction flag and templates, whose fits, reconstructions, K-corrections, absolute magnitudes and derived quantities equal the original's.",
    ["histories", "configurations"],
    "every configuration (band sets, maps, ranges including non-integer ends, flags, template sets) and every save/load sequence up to the depth bound, from empty and non-empty registries",
    "No test saves or loads a K-correction object (it crashed with the installed NumPy).",
    [KC], [("save", KC + ":tofits"), ("load", KC + ":fromfits"), ("band map", KC + ":_set_imap")], [], ["Kcorrect(filename=)", "fromfits()"])

add("C17", "Calls do not modify their inputs or later results",
    "No public call modifies arrays, lists or template spectra passed by the caller (beyond leaving templates at zero redshift when a fitting object is built). "
    "The result of any call depends only on its arguments and the object's configuration: not on earlier calls on this or another object, on sharing templates or responses with other objects, or on later redshifting of the shared templates.",
    ["histories"],
    "every sequence of public calls up to the depth bound on two objects sharing templates and bands, with the caller's arrays reused between calls",
    "Tests never call two methods with the same arrays and compare, nor reuse one object after another.",
    [FI, KC, UT, RE], [("precomputed matrices", FI + ":set_Amatrix"), ("copy on correction", KC + ":to_ab"), ("input casting", FI + ":_process_inputs")], [("Amatrix, AmatrixOut, imap", "precomputed configuration", KC)], ["all public methods"])

add("C18", "Solver failures are retried and never turn into results",
    "If the nonnegative solver gives up on any one or several of the solves of a fit (best fit or Monte Carlo draw), the solve is retried with a larger iteration budget and every other object, draw and result is what it would have been without the failure. "
    "If the retry fails too, the error reaches the caller instead of a result.",
    ["fault_sequences"],
    "every pattern of first-attempt and retry failures over the solver calls of small catalogues with and without Monte Carlo",
    "The solver does not fail on the tests' inputs.",
    [FI], [("retry with larger maxiter", FI + ":_fit_coeffs")], [], ["fit_coeffs()"])

add("C19", "Concurrent use of the response registry is safe",
    "When several threads obtain the registry and load or look up responses at the same time, for every interleaving all threads get the same registry, every load that returns leaves a completely initialised response under its name, no thread ever sees a partially initialised response, and no thread deadlocks.",
    ["schedules"],
    "every interleaving of two threads at registry-level steps up to the preemption bound",
    "Tests are single-threaded.",
    [RE], [("locked singleton creation", RE + ":ResponseDictSingleton.__call__"), ("publish after load", RE + ":load_response")], [("registry", "shared name to response map", RE)], ["ResponseDict()", "load_response()"])

add("C20", "Malformed requests are rejected",
    "A request whose redshifts, fluxes, inverse variances, coefficients or distances do not have matching dimensions (scalar redshift with 1-D values, 1-D redshift with 2-D values of the same length, one value per observed band or per template, and one distance per redshift) raises ValueError or TypeError, as does a missing redshift, and every matching request is accepted. "
    "Constructing an object with a band map whose length differs from the output bands or that names an unobserved band raises ValueError; an unknown response is rejected too. "
    "Projecting with missing or non-matching wavelength and flux arrays raises ValueError, and the SDSS conversions and the error floor reject arrays of differing shapes or the wrong number of bands.",
    ["inputs", "configurations"],
    "every combination of shapes up to 2 dimensions and lengths 0 to bands+1 around the right one for each argument of each method",
    "No test passes malformed input.",
    [FI, KC, RE, UT], [("shape checks", FI + ":_process_inputs"), ("map checks", KC + ":__init__, _set_imap"), ("array checks", RE + ":project"), ("conversion checks", UT)], [], ["all public methods"])

add("C21", "Template storage mode, number and order do not affect the model",
    "The model fluxes of a template set are the same whether the templates are kept interpolated or not, and each template's fluxes are unaffected by how many other templates there are (including sets large enough to be processed in groups) and by their order. "
    "Likewise each band's model fluxes are unaffected by the other bands, their order or repetition, and by the redshift range's other grid points.",
    ["configurations", "inputs"],
    "every template count around the group size and small counts, permutations of templates and bands, both storage modes, several grids",
    "One test compares storage modes for 5 templates; groups are never exercised.",
    [FI, RE, TE], [("group-wise projection", FI + ":_calc_Amatrix"), ("interpolated projection", RE + ":project")], [], ["reconstruct()", "fit_coeffs()"])

add("C22", "An incomplete save is never mistaken for a complete one",
    "If saving a K-correction object is interrupted at any point or runs out of space, the save raises (when the process survives) and reading the file that is left either raises or gives an object with all the saved information: never an object silently missing or altering part of it. "
    "An object in memory still works and saves correctly after a failed save.",
    ["crash_points", "fault_sequences"],
    "every on-disk state between the writes of a save, every truncation at a FITS block boundary, every size limit at a block boundary during the save",
    "Tests never interrupt a save.",
    [KC, TE], [("order of extensions", KC + ":tofits"), ("mandatory extensions", KC + ":fromfits")], [], ["tofits()", "Kcorrect(filename=)"])

add("C23", "AB correction is applied exactly once and only where it belongs",
    "The SDSS object corrects all five bands, the GALEX-SDSS-2MASS object only its five SDSS bands, and the general object none; a user-defined correction is applied likewise to exactly the fluxes and inverse variances entering fits and absolute magnitudes, once per call, and to nothing else (K-corrections, reconstructions, derived quantities and already corrected Monte Carlo fluxes are never corrected). "
    "With the AB-correction flag off nothing is corrected, so that correcting first and using an uncorrecting object gives the same fits and absolute magnitudes as using the correcting object; the default is on for the SDSS object and off for the others.",
    ["inputs", "configurations", "histories"],
    "every object kind x flag x method x call sequence, with distinguishable factors per band",
    "Tests compare shapes only, so a missing, doubled or misplaced correction passes.",
    [KC, FI, UT], [("correction dispatch", FI + ":_process_inputs"), ("to_ab overrides", KC + ":KcorrectSDSS.to_ab, KcorrectGST.to_ab")], [], ["fit_coeffs()", "fit_coeffs_asinh()", "absmag()", "absmag_mc()"])

add("C24", "Stellar model files are read completely and in order",
    "Reading a Basel-format file with any number of models returns the common wavelength grid and, for every model in file order, its own parameters (number, temperature, gravity, metallicity, microturbulence, hydrogen fraction) and its own fluxes, whatever the line breaks and spacing.",
    ["inputs"],
    "every model count and token layout up to the bound with distinguishable values",
    "Only single-model files are read in the tests, indirectly.",
    [UT], [("token offsets", UT + ":read_basel")], [], ["read_basel()"])

add("C25", "Monte Carlo noise is Gaussian",
    "Over many draws, the Monte Carlo perturbations of each band follow a normal distribution with the band's standard deviation.",
    ["inputs"], "the distribution of an unbounded random stream",
    "A statement about a distribution, not about any finite set of executions.",
    [FI], [("numpy normal generator", FI + ":_fit_coeffs")], [], ["fit_coeffs(mc=)"])

add("C26", "An interrupted call leaves no trace",
    "If any public call is interrupted between two of its statements, by the user (KeyboardInterrupt) or for want of memory, the interruption reaches the caller instead of a result. "
    "The caller's arrays, lists and template spectra, every existing fitting object and the responses loaded before are unchanged, every response in the registry is complete, and making the call again, or any other call, gives what it would have given had the interrupted one never been made. "
    "Only an object that the interrupted call itself was reading from a file or redshifting may be in between, until it is read or redshifted again; a file that was being written is refused or read as complete.",
    ["crash_points", "histories"],
    "every public call interrupted before every one of its statements, followed by every probing call",
    "Tests never interrupt anything.",
    [FI, KC, RE, TE, UT], [("publish after load", RE + ":load_response"), ("lock released on the way out", RE + ":ResponseDictSingleton.__call__"), ("intermediate results in local variables", FI + ":_fit_coeffs, " + KC + ":absmag, derived"), ("narrow except clauses", RE + ":all_responses, " + TE + ":Template.__init__")],
    [("registry", "shared name to response map", RE), ("templates' redshift", "changed while a design matrix is computed", TE)], ["every public call"])

add("C27", "Threads can compute with the same objects at the same time",
    "When several threads fit, reconstruct, K-correct, compute absolute magnitudes or derived quantities, project spectra or convert units with the same fitting objects, spectra and responses at the same time, each with arrays of its own, every interleaving gives each call what it gives alone (Monte Carlo: for the draws it got) and leaves the shared objects unchanged. "
    "The same holds while another thread saves one of these objects, builds a further object from the same templates, reloads a response, or redshifts a spectrum of its own.",
    ["schedules"],
    "every two calls, every interleaving of their lines up to the preemption bound",
    "Tests are single-threaded.",
    [FI, KC, RE, TE, UT], [("intermediate results in local variables", FI + ":_fit_coeffs, _process_inputs, _reconstruct"), ("no state set by computations", KC + ":absmag, absmag_mc, derived"), ("read-only projection", RE + ":project")],
    [("Amatrix, AmatrixOut", "shared interpolators", FI)], ["fit_coeffs()", "kcorrect()", "absmag()", "derived()", "project()"])

add("C28", "A copied or pickled object is the same object",
    "A fitting object, template set, spectrum or response copied with copy.deepcopy() or sent through pickle (any number of times, before or after use, redshifted or not, alone or together with others) has the class, attributes and redshift of the original and gives the same results from every call, in the same process and in a freshly started interpreter that has loaded no response yet (as worker processes do). "
    "Objects that were copied together keep sharing what they shared; an original and its copy share nothing that can be changed: calls, redshifting, reloading or overwriting arrays of one does not affect the other.",
    ["inputs", "histories", "configurations"],
    "every object kind and state, every chain of copies up to the bound, every call made of the copy, here and in a fresh process",
    "No test copies or pickles an object or uses one in another process.",
    [FI, KC, RE, TE], [("responses loaded where they are used", KC + ":derived, " + FI + ":_calc_Amatrix, " + UT + ":maggies2flambda"), ("state held in picklable attributes", FI + ":__init__, " + TE + ":_setup, " + RE + ":_setup")],
    [("registry", "not part of any object, empty in a new process", RE)], ["copy.deepcopy()", "pickle", "every public call"])

add("C29", "Plots show the chosen spectra as they are",
    "Plotting a set of spectra draws, on the current axes, one line for each chosen spectrum (all of them by default; one index or a list or array of indices, repeats included) through log10 of wavelength and log10 of wavelength times flux at the set's current redshift, at every sample with positive flux and at no other. "
    "Given wavelength limits, the axes show exactly those, and of the fluxes the range of the chosen spectra between them (with a margin of less than half a dex). Neither the spectra nor the arguments change.",
    ["inputs", "configurations"],
    "every kind of spectra, redshift, choice of indices up to the bound and kind of limits; sequences of two plots",
    "No test plots anything.",
    [TE], [("mask of positive fluxes, choice of indices, limits", TE + ":SED.plot")], [], ["SED.plot()"])

add("C30", "Results do not depend on the surroundings",
    "The shipped bandpasses, templates and stellar models that kcorrect uses are those of the imported package, and every result is the same, whatever the working directory (also one holding files named like the shipped ones, or one that no longer exists), the environment variables (none needs to be set, and none such as KCORRECT_DIR is obeyed), the way the package's location is spelled, the interpreter's flags and the locale, and if directory and environment change at any time. "
    "Files that the user names relative to the working directory are read from there, and what was read stays as it is when the directory changes or the files are removed or replaced later.",
    ["configurations", "histories"],
    "every combination of working directory, environment, import path and events between import, construction and use, up to two events",
    "The tests run in one directory with one environment.",
    ["src/kcorrect/__init__.py", RE, KC, TE, UT], [("data located from the package's own path", "src/kcorrect/__init__.py:KCORRECT_DIR, " + RE + ":fromdat, all_responses"), ("default templates", KC + ":__init__"), ("eager reading", TE + ":fromfits")],
    [], ["load_response()", "Kcorrect()", "fit_coeffs()", "Template(filename=)"])

add("C31", "Missing values stay missing and stay where they are",
    "fit_coeffs() refuses an object with a flux or inverse variance that is NaN or infinite, or with a negative inverse variance, or leaves it without a fit; it never fits it as if the value were known. "
    "A band whose flux or inverse variance is NaN has absolute magnitude -9999. For a redshift or distance that is NaN or infinite there is an error, or results that are not finite or the placeholders 0 and -9999, wherever they depend on it; the conversions (asinh magnitudes, AB correction, flux density, error floors) turn no such value into a finite nonzero one. "
    "The other bands, objects and Monte Carlo draws of the same call have the values they would have without it.",
    ["inputs", "configurations"],
    "every pattern of NaN, infinite, negative and zero values over the bands of an object and its place in a catalogue, for every operation",
    "No test has a value that is not finite.",
    [FI, KC, UT, RE], [("solver refuses what is not finite", FI + ":_fit_coeffs"), ("defined and undefined magnitudes", KC + ":absmag"), ("conversions element by element", UT + ":sdss_asinh_to_maggies, sdss_ab_correct, maggies2flambda, error_floor")],
    [], ["fit_coeffs()", "absmag()", "kcorrect()", "derived()", "utils conversions", "Response.project()"])
add("C32", "Arguments mean the same by position, by name and by default",
    "Every public call and constructor takes its documented arguments in their documented order: the result is the same whichever of them are given by position or by name, "
    "and leaving out an optional argument is the same as giving its documented default (band shift 0, no distance, no optional outputs, ranges [0, 2] with 4000 redshifts for K-correction objects and [0, 1] with 2000 for plain fitters, "
    "AB correction on for the SDSS object only, Planck18, the shipped AB offsets, extension FLUX, overwriting on). "
    "An argument that does not exist, a misspelled one included, is refused with TypeError and never ignored.",
    ["inputs", "configurations"],
    "every call with every split into positional and named arguments, every subset of defaults left out and every value of its options",
    "Tests name nearly all arguments, and use one combination of options each.",
    [FI, KC, UT, RE, TE], [("signatures", FI + ", " + KC + ", " + RE + ", " + TE + ", " + UT + ": every def"), ("options passed on to base classes", KC + ":KcorrectSDSS.__init__, KcorrectGST.__init__")],
    [], ["every public call and constructor"])

add("C33", "Bandpasses the user defines work like shipped ones",
    "A bandpass that the user made (from arrays, a FITS file or a .dat file anywhere) and put into the response registry under any name is what every operation uses under that name, exactly as a shipped one with the same curve: "
    "observed, output and mapped bands, fits, reconstructions, K-corrections, absolute magnitudes, derived quantities, flux conversion, saving and reloading. "
    "The entry put there last counts for objects built and conversions made afterwards; model fluxes of objects built before stay. Loads without reload, listings, saves and reloads of objects never replace it; "
    "once removed, the name is unknown again, or that of its file.",
    ["inputs", "histories"],
    "every way of making and registering the response, every role, and every sequence of puts, removals, loads, reloads, listings and uses up to a bound",
    "Tests use shipped responses only.",
    [RE, FI, KC, UT], [("registry look-up", RE + ":ResponseDict.load_response, all_responses"), ("uses by name", FI + ":Fitter._calc_Amatrix; " + KC + ":Kcorrect.derived, fromfits; " + UT + ":maggies2flambda")],
    [], ["every operation that takes response names"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fp.write(json.dumps(p) + "\n")
print(len(P), "properties")
