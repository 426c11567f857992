#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
FIT = "src/kcorrect/fitter.py"; KC = "src/kcorrect/kcorrect.py"
RS = "src/kcorrect/response.py"; TM = "src/kcorrect/template.py"; UT = "src/kcorrect/utils.py"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)


p("C01", "Fits are the non-negative weighted least-squares optimum",
  "For any photometry and any redshift in range, the fitted template weights are all non-negative, and no other non-negative weights give a smaller inverse-variance-weighted squared residual between the measured AB maggies and the maggies those templates have in the observed bands at that redshift. "
  "This holds alike for a single object, a one-element catalogue and a large catalogue, for any number of bands (including one) and of templates. "
  "Bands with zero inverse variance carry no weight: their (finite) maggies never influence the fit.",
  ["inputs", "configurations"], "all maggies (positive, zero, negative), inverse variances (zero included), in-range redshifts, band lists and template sets",
  "The tests fit all-ones photometry at one redshift and check only signs and shapes; optimality over every input needs an oracle on each fit.",
  [FIT], [("per-object weighted NNLS solve", "Fitter._fit_coeffs"), ("dispatch of single / one-element / many objects", "Fitter.fit_coeffs"), ("template maggies on a redshift grid", "Fitter._calc_Amatrix")],
  ["return value of Fitter.fit_coeffs", "Fitter.Amatrix"])

p("C02", "Catalogue results equal per-object results",
  "Every quantity computed for a catalogue (fitted weights, reconstructed maggies in input and output bands, K-corrections, absolute magnitudes and their optional companions, derived quantities) equals row by row what the same call gives for that object alone, whatever the catalogue's length, order, duplicates or other members. "
  "A scalar redshift gives results without the object axis, a one-element redshift array keeps it. "
  "Lists, tuples and arrays of any float type, byte order or memory layout holding the same numbers give the same results.",
  ["inputs", "configurations"], "all catalogues (length 1 to thousands, any order), all container types and layouts",
  "The tests use catalogues of one or two identical rows and compare sizes only; mixing between rows shows only with distinct rows and permutations.",
  [FIT, KC], [("array/scalar decision and casts", "Fitter._process_inputs"), ("row loop", "Fitter.fit_coeffs"), ("einsum over rows", "Fitter._reconstruct"), ("array branches", "Kcorrect.kcorrect/absmag/derived")],
  ["return values of fit_coeffs, reconstruct, reconstruct_out, kcorrect, absmag, derived, fit_coeffs_asinh"])

p("C03", "Results respond correctly to flux and error units",
  "Multiplying all maggies by a positive factor and dividing the inverse variances by its square multiplies the fitted weights, stellar masses and reconstructed maggies by that factor, shifts absolute magnitudes and limits by -2.5 log10 of it, and leaves K-corrections, mass-to-light ratios, star-formation fractions and metallicities unchanged. "
  "Multiplying all inverse variances by one positive factor leaves the fit unchanged. "
  "Reordering the bands together with their data reorders the per-band results and changes nothing else.",
  ["inputs", "configurations"], "all photometry and positive scale factors whose values stay within single precision range; all band orders",
  "A metamorphic relation over all inputs: the tests never compare two related fits.",
  [FIT, KC], [("weighting by the square root of the inverse variance", "Fitter._fit_coeffs"), ("double precision solve", "Fitter._fit_coeffs"), ("index map from output to input bands", "Kcorrect.__init__ (imap)")],
  ["return values of fit_coeffs, kcorrect, absmag, derived, reconstruct"])

p("C04", "Redshift range is closed, isolated and never extrapolated",
  "Every redshift in the configured range, both endpoints included, can be fitted and its maggies reconstructed in the input bands. "
  "An object outside the range gets all-zero weights, with or without Monte Carlo samples, and never disturbs the other objects of its catalogue. "
  "Asking for reconstructed maggies, K-corrections or output-band quantities that need a redshift (combined with any band shift) outside the range raises ValueError instead of returning extrapolated or clipped values.",
  ["inputs", "configurations"], "all ranges (negative starts included), grid sizes, in- and out-of-range redshifts, band shifts and catalogue mixtures",
  "The tests use interior redshifts of a few ranges; endpoint rounding depends on the particular range and grid size.",
  [FIT, KC], [("redshift grid", "Fitter.__init__"), ("bounds error of the interpolator", "Fitter._interpolate_Amatrix"), ("zero fallback", "Fitter._fit_coeffs"), ("combined shift", "Fitter._reconstruct")],
  ["return values and exceptions of fit_coeffs, reconstruct, reconstruct_out, kcorrect"])

p("C05", "Projection gives photon-weighted AB maggies",
  "Projecting a spectrum through a bandpass returns the ratio of the response- and wavelength-weighted flux integral of the spectrum to that of the AB standard source (3631 Jy), integrated over every wavelength sampled by the spectrum or the bandpass, and zero when spectrum and bandpass do not overlap. "
  "The AB source itself therefore gives exactly one, the result is linear in flux, independent of the normalisation of the response, zero-padded outside the spectrum, and does not depend on whether the edge of the response is zero. "
  "A set of spectra gives the same values as each spectrum alone, whether passed as a spectrum object or as wavelength and flux arrays.",
  ["inputs"], "all spectra (smooth, spiky, truncated, single or sets) and bandpasses (shipped, box, Gaussian, non-zero edges), all sampling",
  "The tests project one AB spectrum through one filter and one template through five; the integral over arbitrary grids and edges is never compared with an independent one.",
  [RS, UT, TM], [("union integration grid and trapezoid rule", "Response.project"), ("AB reference", "utils.sed_ab"), ("cubic interpolation, zero outside", "Response.set_interp, SED.set_interp")],
  ["return value of Response.project"])

p("C06", "Redshifting a spectrum is exact, flux-conserving and history-free",
  "Setting a spectrum to redshift z stretches its wavelengths by (1+z) and divides its fluxes by (1+z), so the bolometric integral is unchanged and its synthetic photometry is that of the shifted spectrum. "
  "The result depends only on the last redshift set, not on earlier ones, and setting zero restores the rest-frame values exactly; rest-frame arrays never change. "
  "Building a fitter leaves the templates it was given at redshift zero, and its predictions do not depend on the redshift the templates were at before.",
  ["inputs", "histories"], "all spectra, sequences of redshifts (negative included), interleavings with fitter construction and projection",
  "The test sets one redshift once; history independence needs sequences.",
  [TM, FIT], [("recompute from rest-frame arrays", "SED.set_redshift"), ("refresh of the interpolator", "SED.set_interp"), ("return to z=0", "Fitter._calc_Amatrix")],
  ["SED.wave, SED.flux, SED.interp, SED.redshift after each call"],
  state=[("restframe_wave/restframe_flux", "rest-frame spectrum, the only source of truth", "template.SED")])

p("C07", "Reconstructed maggies are the photometry of the model spectrum",
  "The maggies reconstructed from a set of weights equal, to the accuracy of the redshift grid, the synthetic AB photometry of the corresponding sum of templates: redshifted to z and observed through each input band, or through each output band for output reconstructions. "
  "With a band shift b the spectrum is observed at (1+z)(1+b)-1 and the result divided by (1+b). "
  "Reconstruction is linear in the weights and non-negative for non-negative weights and spectra.",
  ["inputs", "configurations"], "all weights, redshifts, band shifts, band lists (inputs and outputs different), template sets and grids",
  "The tests check only that maggies are non-negative at one redshift; band shifts and separate output bands are never reconstructed.",
  [FIT, KC, RS], [("template maggies per band and redshift", "Fitter._calc_Amatrix"), ("linear combination and band-shift normalisation", "Fitter._reconstruct"), ("output bands", "Kcorrect.reconstruct_out")],
  ["return values of reconstruct and reconstruct_out", "Amatrix, AmatrixOut"])

p("C08", "K-corrections obey their definition and identities",
  "The K-correction from observed band R at redshift z to output band Q with band shift b is -2.5 log10 of the ratio of the model's maggies in R at z to its maggies in the shifted band Q at rest, with R chosen for each output band by the band map. "
  "Hence it is independent of the overall scale of the weights, is zero at z=0 for identical unshifted bands, and equals -2.5 log10(1+z) for every model when the band shift equals z and the bands are identical. "
  "Objects with all-zero weights get zero rather than an undefined value.",
  ["inputs", "configurations"], "all weights, redshifts, band shifts, band lists, output lists and maps (repeated, reordered, fewer or more than the inputs)",
  "The tests check array sizes only ('doesn't test quantitatively') and never use a band map or a band shift.",
  [KC, FIT], [("ratio of reconstructed maggies", "Kcorrect.kcorrect"), ("band map", "Kcorrect.__init__ (imap)"), ("band shift", "Fitter._reconstruct")],
  ["return value of Kcorrect.kcorrect"],
  state=[("imap", "index of the observed band used for each output band", "Kcorrect")])

p("C09", "Absolute magnitudes follow m - DM - K, with -9999 where undefined",
  "For each output band the absolute magnitude is the AB magnitude of the mapped observed band minus the distance modulus minus the K-correction that can be returned alongside. "
  "The distance modulus comes from the object's redshift through the configured cosmology, or, when distances in Mpc are given, from 5 log10(distance / 10 pc), independent of cosmology. "
  "The value is exactly -9999 when the mapped band has non-positive maggies, non-positive inverse variance, or no defined K-correction, and is otherwise finite.",
  ["inputs", "configurations"], "all photometry mixtures of good and bad bands, redshifts, distances, cosmologies, band maps, band shifts, optional outputs",
  "The tests check array shapes with all-ones photometry, the default cosmology and no distances or bad values.",
  [KC], [("distance modulus and sentinel logic", "Kcorrect.absmag"), ("band map", "Kcorrect.__init__ (imap)")],
  ["return value of Kcorrect.absmag"])

p("C10", "Reconstructed absolute magnitudes and limits are consistent",
  "The reconstructed absolute magnitude of each output band is the magnitude the model itself would have in that (band-shifted) output band at rest at 10 pc, whatever band map, band shift or photometry is used, and -9999 where the model has no flux there. "
  "The one-sigma limit in each output band is the absolute magnitude of a source whose mapped-band flux equals one standard deviation, given whenever that band's inverse variance is positive and the weights are not all zero (also for non-positive fluxes), and -9999 otherwise. "
  "Requesting these extra results never changes the ordinary absolute magnitudes.",
  ["inputs", "configurations"], "all photometry, weights, band maps, output bands, band shifts, distances and option combinations",
  "The tests check only the shapes of these arrays, for identical input and output bands.",
  [KC], [("reconstruct and limit options", "Kcorrect.absmag")],
  ["return tuple of Kcorrect.absmag with reconstruct and limit"])

p("C11", "Derived stellar quantities follow from weights and distance",
  "Current stellar mass and integrated star formation are the weights times the templates' per-unit values times the squared distance in units of 10 pc; recent star-formation fractions and metallicity are the corresponding ratios, zero when there is no mass. "
  "The mass-to-light ratio in each output band is that mass over the model's band luminosity in solar units (or per maggy where the Sun has no magnitude in that band), for any number of output bands. "
  "Masses scale linearly with the weights and with squared distance whether the distance is given or comes from the cosmology; ratios do not depend on either.",
  ["inputs", "configurations"], "all weights (zero included), redshifts, given distances, cosmologies, output band lists, template sets",
  "The tests check dictionary keys and sizes for one band list without distances.",
  [KC], [("dot products and distance factor", "Kcorrect.derived"), ("solar magnitudes", "Response.set_solar_magnitude")],
  ["return value of Kcorrect.derived"])

p("C12", "Monte Carlo fits sample the stated errors",
  "With Monte Carlo requested, a fit returns the same weights as without it, plus for each object and draw maggies equal to the input maggies plus independent Gaussian noise whose standard deviation is one over the square root of the inverse variance, untouched in bands of zero inverse variance. "
  "The weights returned for each draw are the optimal non-negative fit to exactly that draw's maggies with the original inverse variances. "
  "Array shapes are (objects, templates or bands, draws), without the object axis for a scalar redshift, for catalogues of every size.",
  ["inputs", "configurations"], "all catalogues (one object, one-element arrays, many), draw counts, zero-weight bands, out-of-range objects, AB-correcting classes",
  "No existing test requests Monte Carlo samples at all.",
  [FIT], [("noise and per-draw NNLS", "Fitter._fit_coeffs"), ("assembly of draws", "Fitter.fit_coeffs")],
  ["return tuple of fit_coeffs with mc > 0"])

p("C13", "Monte Carlo propagation equals per-draw evaluation",
  "Absolute magnitudes (with the optional reconstructed magnitudes and K-corrections) and derived quantities computed for Monte Carlo samples equal, draw by draw, those computed from that draw's maggies and weights alone, with draws on the last axis and output bands on the band axis, for any number of output bands and with given distances or band shifts. "
  "Feeding the samples of a fit straight into this propagation is consistent with the ordinary calculation: in the limit of vanishing errors every draw reproduces the ordinary absolute magnitudes and derived quantities, also for classes that convert their input fluxes to AB.",
  ["inputs", "configurations"], "all catalogues, draw counts, output band lists, distances, band shifts, option combinations, AB-correcting classes",
  "No existing test calls the Monte Carlo propagation methods.",
  [KC, FIT], [("loop over draws", "Kcorrect.absmag_mc, Kcorrect.derived_mc"), ("flux system of the returned samples", "Fitter.fit_coeffs")],
  ["return values of absmag_mc and derived_mc"])

p("C14", "A saved K-correction object reloads to an equivalent one",
  "Writing a K-correction object to FITS and creating a new one from that file preserves its band lists, band map, templates, redshift range, grid size, redshift grid and AB flag, and every later result (fits, reconstructions, K-corrections, absolute magnitudes, derived quantities, Monte Carlo) matches the original's, in the same process or a fresh one. "
  "Saving over an existing file, including the file the object was loaded from, replaces it completely, and saving does not change the object that was saved. "
  "Repeated save and load is a fixed point.",
  ["configurations", "histories"], "all band lists, output lists and maps, ranges (fractional and negative included), grids, template sets, AB flags, and sequences of save, load and overwrite",
  "No existing test saves or loads a K-correction object.",
  [KC, TM], [("HDU layout", "Kcorrect.tofits"), ("reconstruction of interpolators", "Kcorrect.fromfits"), ("template tables", "Template.tofits")],
  ["file contents and the reloaded object's attributes and results"])

p("C15", "Spectrum, template and bandpass files round-trip",
  "Spectra, template sets and bandpass responses written to FITS and read back have identical rest-frame wavelengths, fluxes or response values and per-template properties, for one or many spectra, in table or image layout, and whatever redshift was set when writing; derived bandpass quantities also agree. "
  "Wavelengths read or given in any order are sorted together with their responses. "
  "Reading takes only the first row of a table, and writing without permission to overwrite never alters an existing file.",
  ["inputs", "configurations"], "all single-precision spectra and responses, layouts, extension names, redshift states, existing files",
  "Tests round-trip one flat spectrum and one filter; sets, image layout, redshifted objects and overwriting are not covered.",
  [TM, RS], [("one-row table or WAVE/FLUX images", "SED.tofits/fromfits"), ("per-template extensions", "Template.tofits/__init__"), ("response table", "Response.tofits/fromfits")],
  ["written files and re-read attributes"])

p("C16", "The bandpass registry never holds a broken or stale entry",
  "There is one bandpass registry per process; loading a bandpass makes it available everywhere with exactly the data of its file, loading it again keeps the same object unless a reload is requested, and a reload reflects the file's current content. "
  "A load that fails (missing or malformed file, read error at any point) raises an error every time it is tried and leaves the registry exactly as it was: no half-filled entry appears and an entry loaded earlier survives. "
  "No operation on one bandpass changes another.",
  ["histories", "fault_sequences"], "all sequences of load, reload, failed load, file change and lookups, with a read error injected at each step of a load",
  "The tests load valid shipped bandpasses once each; failures and sequences are not exercised.",
  [RS], [("singleton metaclass", "ResponseDictSingleton"), ("load and reload", "ResponseDict.load_response"), ("file parser", "Response.fromdat")],
  ["registry contents after each operation", "exceptions of load_response"],
  state=[("ResponseDict instance", "name -> loaded bandpass", "response.ResponseDict")])

p("C17", "Bandpass summary quantities follow their definitions",
  "A bandpass's effective wavelength is the logarithmic mean weighted by response per unit log wavelength, so it lies within the band and does not depend on the response's normalisation or on the order of the input arrays. "
  "Its half-maximum limits are the first and last wavelengths at which the response reaches half its peak and their difference is the FWHM. "
  "Its solar absolute magnitude and Vega-to-AB offset are -2.5 log10 of the projections of the shipped solar (at 10 pc) and Vega models, and are undefined only when the band lies outside the model's wavelength range.",
  ["inputs"], "all shipped bandpasses and all user-supplied wavelength/response arrays (any order, scale, non-zero edges, multiple peaks)",
  "The tests check magnitudes of two filters with vanishing edges; effective wavelength and FWHM are never checked.",
  [RS], [("effective wavelength", "Response.set_lambda_eff"), ("half-maximum limits", "Response.set_fwhm_limits"), ("Sun and Vega", "Response.set_solar_magnitude, set_vega2ab")],
  ["Response attributes after construction or loading"])

p("C18", "The bandpass listing is complete and its validity check truthful",
  "Listing the bandpasses of a directory returns exactly the base names of its regular '.dat' files, each once. "
  "With validity checking it returns exactly those whose file in that directory can be loaded, and these are then available in the registry with that file's data; files that cannot be loaded are left out every time the listing is repeated. "
  "Listing never changes the files, nor, without validity checking, the registry.",
  ["inputs", "histories"], "all directories (shipped or user-supplied; with valid, malformed, oddly named and non-file entries) and repeated calls",
  "No existing test calls the listing with a user directory or validity checking.",
  [RS], [("directory scan and validity check", "response.all_responses")],
  ["return value of all_responses and the registry afterwards"])

p("C19", "Asinh magnitudes convert to the right maggies and errors",
  "SDSS asinh magnitudes convert to the maggies of which they are the asinh magnitudes for each band's softening parameter, so re-encoding recovers the magnitude, including faint and negative fluxes. "
  "Inverse variances follow by first-order propagation of the magnitude error, and extinction multiplies maggies by 10^(0.4 A) and their errors by the same factor, so extinction never changes signal-to-noise. "
  "Each object and band converts independently, single objects and catalogues agree, and fitting asinh magnitudes equals fitting the converted maggies.",
  ["inputs"], "all magnitudes (bright, faint, beyond the zero-flux magnitude), errors, extinctions, shapes",
  "One test calls the asinh fit with all-ones magnitudes and checks a size.",
  [UT, KC], [("sinh/cosh conversion", "utils.sdss_asinh_to_maggies"), ("asinh fit", "KcorrectSDSS.fit_coeffs_asinh")],
  ["return value of sdss_asinh_to_maggies, fit_coeffs_asinh"])

p("C20", "The AB zero-point correction is applied exactly once",
  "Converting SDSS maggies to AB multiplies band k by 10^(-0.4 c_k) with the documented (or supplied) five offsets and divides inverse variances by its square, so signal-to-noise is unchanged. "
  "When AB correction is switched on it is applied exactly once to the fluxes entering a fit or an absolute magnitude (hence equals pre-correcting the inputs with correction switched off), to ugriz only in the GALEX-SDSS-2MASS class, and never to reconstructed maggies; when switched off nothing is changed. "
  "Inputs that do not have exactly the five SDSS bands are rejected.",
  ["inputs", "configurations", "histories"], "all photometry, both correcting classes, flag on and off, scalar and catalogue inputs, sequences of calls on the same arrays",
  "The tests use the default flags with all-ones data and never look at the corrected values or call twice with the same arrays.",
  [UT, KC, FIT], [("offsets", "utils.sdss_ab_correct"), ("class hooks", "KcorrectSDSS.to_ab, KcorrectGST.to_ab"), ("single application", "Fitter._process_inputs")],
  ["return values of sdss_ab_correct, to_ab, fit_coeffs, absmag"])

p("C21", "Error floors only ever raise errors, to exactly the floor",
  "Applying fractional error floors returns inverse variances whose fractional flux errors are the larger of the original and the band's floor: values already noisier than the floor are unchanged, others become exactly the floor. "
  "Bands without a measurement (non-positive inverse variance) and zero-flux values stay as they are, negative fluxes are treated by absolute value, every object and band is independent and single objects and catalogues agree. "
  "Applying the same floor twice changes nothing further, and the inputs are not modified.",
  ["inputs"], "all maggies (negative and zero included), inverse variances (zero and negative included), floors and shapes",
  "No existing test calls this function.",
  [UT], [("floor", "utils.error_floor")], ["return value of error_floor"])

p("C22", "Flux conversion uses the AB source at the effective wavelength",
  "The AB source spectrum is 3631 Jy expressed per Angstrom at every wavelength. "
  "Converting maggies to flux densities returns, per band in the given order, the band's effective wavelength, the maggies times the AB source there, and inverse variances divided by its square, so signal-to-noise is unchanged; single objects and catalogues agree and bands are loaded on demand. "
  "One maggie in a band corresponds to the flux density of a source whose projection through that band is one AB maggie, to within the band's width.",
  ["inputs", "configurations"], "all band lists (repeated, reordered, not yet loaded), maggies and inverse variances, with and without errors",
  "No existing test calls the conversion.",
  [UT], [("AB source", "utils.sed_ab"), ("conversion", "utils.maggies2flambda")], ["return values of sed_ab and maggies2flambda"])

p("C23", "Calls have no side effects on inputs or on shared state",
  "No call ever changes the arrays or lists a caller passes in, whatever their type, and no fit, reconstruction, K-correction, magnitude or derived calculation changes the object it is called on, its templates or the bandpasses. "
  "Repeating a call with the same arguments therefore gives identical results, in any order and interleaving with other calls and other objects. "
  "Objects with different bands, templates, ranges or flags, including ones sharing a template object, never influence each other.",
  ["histories", "inputs", "configurations"], "all call sequences over several coexisting objects, all argument types (single precision arrays passed without copying included)",
  "Each test builds fresh inputs and a fresh object and calls each method about once.",
  [FIT, KC, UT, TM], [("casting of inputs", "Fitter._process_inputs"), ("AB conversion", "KcorrectGST.to_ab"), ("template redshift restored", "Fitter._calc_Amatrix")],
  ["argument and attribute digests before and after every public call"])

p("C24", "Malformed inputs are rejected, never silently reinterpreted",
  "Photometry, inverse variances or weights whose number of objects, bands, templates or Monte Carlo draws does not match the redshifts, the object's configuration or each other raise an error rather than being broadcast, truncated, padded or reshaped, also when the mismatched array happens to be broadcastable or to have the right total size. "
  "Missing redshifts, redshift arrays of more than one dimension, band maps of the wrong length or naming unknown bands, spectra and bandpasses whose wavelength and flux (or response) lengths differ, and unknown bandpass names are rejected likewise. "
  "A rejected call leaves the object fully usable.",
  ["inputs", "configurations"], "all wrong shapes (transposed, flattened, extra or missing axes, single-element, broadcastable) for every array argument of every method",
  "No existing test passes a wrong shape.",
  [FIT, KC, RS, UT], [("shape checks", "Fitter._process_inputs"), ("map checks", "Kcorrect.__init__"), ("wave/flux checks", "Response.project")],
  ["exceptions raised by the public methods"])

p("C25", "The memory-saving template mode changes nothing but memory",
  "Templates or fitters created without keeping interpolators give the same template maggies, fits, reconstructions and K-corrections as those created with them, for any number of templates, including sets large enough to be processed in groups, and for groups of any remainder size. "
  "Bands which a template set does not overlap give zero in both modes. "
  "The same holds when templates come from files or from arrays.",
  ["configurations", "inputs"], "all template counts (one, many, around and beyond the group size), band lists, redshift ranges",
  "Tests compare the two modes for the five default templates only, and one of them compares an object with itself.",
  [FIT, RS, TM], [("grouped projection", "Fitter._calc_Amatrix"), ("array projection", "Response.project"), ("interpolation flag", "SED.__init__")],
  ["Amatrix and fit results of paired objects"])

p("C26", "Stellar-atmosphere files are parsed faithfully",
  "Reading a Basel-format stellar model file returns its 1221 wavelengths, and for every model in the file, in order, its parameters and its 1221 fluxes, whatever the line breaks and spacing and however many models there are. "
  "No value is lost, shifted between models or taken from another model's header.",
  ["inputs"], "all files of the format: any number of models, line wrapping, number formats",
  "The tests only read the two shipped single-model files indirectly, through two magnitudes.",
  [UT], [("tokeniser", "utils.read_basel")], ["return value of read_basel"])

p("C27", "Threads sharing bandpasses and fitters see sequential results",
  "A thread that finds a bandpass in the registry finds it complete: while another thread is loading it for the first time, lookups see no entry or the new complete one; while another thread is reloading it, they see the old complete entry or the new complete one; and every thread that asked for a load can use the bandpass when its call returns. "
  "Concurrent fits, reconstructions, K-corrections, magnitudes and derived calculations on one shared object give each caller the results of a sequential run.",
  ["schedules"], "all interleavings of concurrent loads, reloads, lookups and calculations, with delays inside the file reading",
  "All tests are single-threaded.",
  [RS, FIT, KC], [("publish after loading", "ResponseDict.load_response"), ("calculations keep their state in locals", "Fitter, Kcorrect methods")],
  ["registry lookups from concurrent threads", "per-thread results"])

p("C28", "Spectrum plots show the spectra asked for",
  "Plotting a spectrum object draws, on the current axes, one line for each spectrum asked for (all of them when none are named, in any form of index) with the logarithms of its wavelengths and of wavelength times flux at its current redshift, leaving out samples without positive flux. "
  "Wavelength limits become the limits of the axis, and the other axis contains everything shown inside them. "
  "Neither the object nor the arguments are changed, and lines already drawn stay.",
  ["inputs", "histories"], "all spectra (with zero and negative samples), choices of spectra, limits, redshifts and axes",
  "No existing test plots anything.",
  [TM], [("plot", "SED.plot")], ["lines, limits and labels of the figure"])

p("C29", "An argument left out means its documented default",
  "Every argument the documentation gives a default for behaves, when left out, exactly as if that default had been given: bands, templates, redshift range and grid, AB correction, cosmology and interpolation of objects, and band shift, distance, limits, Monte Carlo and flags of calls. "
  "Defaults are independent of earlier calls and objects, of what a caller did to the results or attributes it was given, and of the process-wide default cosmology. "
  "The documented examples run as printed.",
  ["inputs", "configurations", "histories"], "all subsets of arguments left out, after all histories of calls with other values",
  "The tests leave out arguments but do not compare with the documented default; mutated shared defaults need a history.",
  [FIT, KC, TM, RS, UT], [("constructor defaults", "Kcorrect.__init__, KcorrectSDSS.__init__, KcorrectGST.__init__"), ("default template set", "Template.__init__"), ("call defaults", "Kcorrect.absmag, derived, kcorrect")],
  ["attributes of objects", "return values of calls with arguments left out"])

p("C30", "Long use does not leak files, objects or memory",
  "Repeating any operation - loading, reloading, saving and failing to load files, making, redshifting and dropping spectra, bandpasses and objects, fits and everything computed from them, rejected calls - leaves no open files behind, and after a first use the number of living objects and the memory in use do not grow with the number of repetitions. "
  "This holds also when the operation fails half way, and when each repetition has new redshifts. "
  "Loaded objects do not hold on to their files: any number may be alive at once, and a file changed or removed later changes none of them.",
  ["histories"], "all operations and mixtures of them, repeated any number of times, failing ones included",
  "Tests call each operation once or twice and never look at open files or memory.",
  [FIT, KC, RS, TM, UT], [("file handles", "SED.fromfits, Kcorrect.fromfits, Response.fromfits"), ("registry", "ResponseDict"), ("redshift state", "SED.set_redshift")],
  ["open file descriptors, objects by type, traced memory between windows of repetitions"])

p("C31", "Files cut short never pass for complete ones",
  "A saved K-correction object, template set, spectrum or bandpass whose file was cut short at any byte, whose saving met a full disk, or whose saving was interrupted at any point, either fails to load or loads as the complete object that was saved. "
  "It never loads as an object with missing, zero or mixed contents (an interrupted saving over an older file may leave that file as it was). "
  "A failed saving raises (except that numpy does not notice when only the last few kilobytes of a file, still in its buffer, can not be written; such a file then fails to load), and leaves the object in memory unchanged and able to be saved again.",
  ["crash_points", "inputs"], "all objects, all cut positions, all disk limits, all points of the saving execution",
  "The tests save and load complete files only; crash points cannot be sampled by examples.",
  [KC, TM, RS], [("sequence of HDUs written in several steps", "Kcorrect.tofits, Template.tofits"), ("reading by name", "Kcorrect.fromfits, Template.fromfits")],
  ["files on the disk after cuts and faults, and the objects or exceptions loading them gives"])

p("C32", "The same inputs give the same results in every process",
  "Results, rejections of wrong input and saved files do not depend on the process: hash seed, interpreter options (assertions and docstrings off), locale and encoding, working directory (deleted, not writable, or with files named like the package's own), user, umask, order and form of imports, thread or forked process, numpy print and error settings, process-wide default cosmology, units and FITS settings, or where the package is installed. "
  "Importing and using the package writes nothing into the working directory or the package.",
  ["configurations", "inputs"], "all environments and inputs",
  "The tests run in one process environment.",
  [FIT, KC, RS, TM, UT], [("package data located from the module", "kcorrect.KCORRECT_DIR"), ("files read", "Response.fromdat, utils.read_basel"), ("rejections", "shape checks of all methods")],
  ["results, rejections and files of processes in different environments"])

p("C33", "Copied and pickled objects work like the original, and apart",
  "A copy (copy, deepcopy, pickle) of a fitter, K-correction object, template set, spectrum or bandpass, fresh, used, redshifted or reloaded, has the same state and gives the same results and files as the original, also in a new process that has loaded nothing before and in pools of processes. "
  "Copying changes nothing, and after a deep copy changing either one never shows in the other.",
  ["histories", "configurations"], "all objects and histories, ways of copying, and processes",
  "No existing test copies or pickles an object; multiprocessing pools are how catalogues are fitted.",
  [FIT, KC, RS, TM], [("bands loaded on demand", "Kcorrect.derived, Fitter._calc_Amatrix"), ("interpolators", "Fitter.Amatrix, SED.interp")],
  ["state, results and files of originals and copies, here and in other processes"])

p("C34", "Survey photometry comes out as documented, end to end",
  "Galaxies of a survey catalogue taken through the documented steps (GALEX, SDSS and 2MASS units, AB corrections, extinction, error floors, fits, K-corrections, magnitudes, masses, mass-to-light ratios) give, in any order, grouping, storage and route (nanomaggies, maggies, asinh magnitudes, corrected by the class or beforehand), the numbers an independent double-precision calculation gives, photometry without weight has no influence, and the results stay within the documented ranges. "
  "The programs in bin/ finish on any such galaxies and show these numbers in all their figures.",
  ["inputs", "configurations", "histories"], "all selections, orders, storage and routes of survey galaxies",
  "Tests fit made-up objects one step at a time; no test uses the bundled catalogue or runs the programs, where units, zero points and steps have to fit together.",
  [FIT, KC, UT, RS, TM], [("units and zero points", "utils.sdss_ab_correct, utils.error_floor, Response.vega2ab"), ("the chain fit to magnitudes", "Fitter.fit_coeffs, Kcorrect.absmag, Kcorrect.derived"), ("programs", "bin/k_plot_test_gst")],
  ["photometry, every call, final numbers and the points shown in figures"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fp:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        fp.write(json.dumps(d) + "\n")
print(len(P), "properties")
