"""Source of properties.jsonl (run: python3 props_src.py)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=None)))


CAL = "src/rascal/calibrator.py"
ATL = "src/rascal/atlas.py"
HT = "src/rascal/houghtransform.py"
UT = "src/rascal/util.py"
MO = "src/rascal/models.py"
PL = "src/rascal/plotting.py"
SY = "src/rascal/synthetic.py"

p("C01", "Caller-supplied data is never modified",
  "No library call changes the contents of an array, list or coefficient vector that the caller passed in, either during that call or through a later call on the same object. "
  "A calibrator works on its own snapshot of the peaks and the spectrum it was constructed with. "
  "The only shared object is a line atlas handed to a calibrator, which both sides may edit.",
  ["inputs", "histories"], "every public call, every argument value (views, lists, integer or float arrays), every later sequence of calls",
  "Tests pass fresh arrays and never compare them with a copy after the call; log-scaled plots, lists versus arrays and later calls on retained references are not sampled.",
  [CAL, ATL, HT, UT, MO, PL, SY],
  [("deep copies of peaks and spectrum at construction", CAL + " Calibrator.__init__"), ("copy of the initial coefficients", MO + " robust_polyfit"), ("copy before peak normalisation", UT + " refine_peaks")],
  [("peaks, spectrum", "snapshots of the caller's data", CAL)])

p("C02", "Plotting never changes the calibration",
  "Drawing any plot leaves every property of the calibrator unchanged: its peaks, spectrum, atlas, pairs, candidates, matches, coefficients and settings are the same before and after. "
  "This holds for both plotting libraries, every display option, and also when a plot call fails.",
  ["inputs", "configurations"], "all plot functions, both plotting backends, all options",
  "Plot tests only check that a call does not crash.",
  [PL, CAL], [("plot functions read the calibrator only", PL), ("thin plot methods", CAL + " plot_*")])

p("C03", "Files and windows appear only on request, under the requested name",
  "A plot call writes a file only when saving was requested, and shows a window only when display was requested; every file it writes is the requested name (or the documented default) followed by a dot and one of the requested, supported types. "
  "Each requested and supported type is written. Saving a Hough transform touches the disk only when disk output was requested, and only under the requested name.",
  ["inputs", "configurations"], "all combinations of save, display, type list, file name and plotting library",
  "Tests exercise a few flag combinations and never check that nothing else was written or shown.",
  [PL, HT, CAL], [("save_fig/display guards", PL), ("to_disk guards", HT + " save")])

p("C04", "Element, wavelength and intensity of a line stay together",
  "Through every selection, reordering and conversion between a line list and the atlas or plot, the element label, the wavelength and the intensity reported at one position belong to the same line of the source list. "
  "User-supplied lines keep the element and intensity given at the same position.",
  ["inputs", "configurations"], "every line list, element set, range, threshold, brightest-n and separation setting",
  "Tests only check that some lines were loaded; none compares labels or intensities with the source.",
  [UT, ATL, PL], [("identical masks applied to the three columns", UT + " load_calibration_lines"), ("zip into atlas entries", ATL + " Atlas.add, add_user_atlas"), ("identical masks", PL + " plot_calibration_lines")])

p("C05", "Every loaded line passes the requested filters",
  "Every line returned from a line list belongs to a requested element, lies within the requested wavelength limits, and is at least as intense as the requested minimum; when a brightest-n limit is given at most n lines, the most intense ones, are kept. "
  "The minimum separation is enforced last, between neighbours in wavelength, so no two lines that survive intensity filtering and are closer than the limit are kept, and a line without neighbours is not dropped. "
  "Line-list fields are read without truncation.",
  ["inputs", "configurations"], "every element set, range, threshold, n, separation, linelist",
  "Tests never assert anything about the filters; the default brightest-n ordering silently defeated the separation filter.",
  [UT, ATL, "src/rascal/arc_lines/nist_clean.csv"], [("mask chain", UT + " load_calibration_lines"), ("separation", UT + " filter_separation"), ("range", UT + " filter_wavelengths"), ("intensity", UT + " filter_intensity")])

p("C06", "Air and vacuum wavelengths are never mixed",
  "Built-in line lists are in vacuum: lines come back in air unless vacuum was requested, and the wavelength limits are expressed in the same medium as the lines when they are compared. "
  "User lines are converted to air exactly when asked for. Every conversion uses the temperature, pressure and humidity given to that call, each in its own role.",
  ["inputs", "configurations"], "all conditions, both vacuum settings, all entry points that load or add lines",
  "No test loads lines with non-default conditions or with the vacuum flag.",
  [UT, ATL, CAL, PL], [("limit conversion and final conversion", UT + " load_calibration_lines"), ("conditional conversion", ATL + " add_user_atlas"), ("forwarding", CAL + " add_atlas, add_user_atlas")])

p("C07", "Refraction follows the published modified Edlen equations",
  "The refractive index used for vacuum/air conversion is the modified Edlen equation of the cited NIST documentation as a function of wavelength, temperature, pressure and water vapour pressure, with the saturation vapour pressure evaluated at the absolute temperature. "
  "Vacuum to air divides by that index and air to vacuum multiplies by it, with temperatures given in kelvin at the public interface.",
  ["inputs"], "all wavelengths, temperatures, pressures and humidities",
  "The tests accept a 10 percent (1000e-8) error of the refractivity and a 1 percent error of the wavelength, far above the whole effect.",
  [UT], [("index formula", UT + " edlen_refraction"), ("vapour pressure", UT + " get_vapour_pressure, get_vapour_partial_pressure"), ("conversions", UT + " vacuum_to_air_wavelength, air_to_vacuum_wavelength")])

p("C08", "Matched pixels and wavelengths change together or not at all",
  "The list of matched pixels and the list of matched wavelengths always have the same length and entry i of one belongs to entry i of the other, after a fit, a match, a manual refit, and adding or removing a pair. "
  "An operation that fails while updating them leaves both as they were. Adding a pair keeps the position of the pair the same in both lists and works for any pixel position. The reported list of pairs shows every matched pixel with its own matched wavelength and with the position at which that pair can be removed.",
  ["inputs", "histories", "fault_sequences"], "every sequence of fit, match, refit, add and remove calls, including ones that raise half way",
  "Tests add one pair beyond the last peak and remove one; failures in the middle of an update are never provoked.",
  [CAL], [("paired insert/delete before assignment", CAL + " add_pix_wave_pair, remove_pix_wave_pair"), ("paired assignment on acceptance", CAL + " _solve_candidate_ransac, match_peaks, manual_refit")],
  [("matched_peaks, matched_atlas", "paired result lists", CAL)])

p("C09", "Matches are only ever supplied peaks and atlas lines",
  "Every matched pixel reported by a fit or a match is, unaltered, one of the peaks the calibrator was given, and every matched wavelength is, unaltered, one of the lines of its atlas. "
  "They are selected, never interpolated, shifted, rounded or invented; manually known pairs and predicted wavelengths never enter the reported lists.",
  ["inputs", "schedules"], "all peaks, atlases, settings and random draws",
  "One test checks set membership of the peaks for one data set; wavelengths are never checked.",
  [CAL], [("pairs are a product of peaks and lines", CAL + " _generate_pairs"), ("selection by mask and argmin", CAL + " _get_candidate_points_*, _get_most_common_candidates, _match_bijective, match_peaks")])

p("C10", "A fit is only accepted after passing every quality gate",
  "A candidate solution replaces the current best only if its sampled polynomial starts inside the allowed wavelength interval, increases monotonically over the extended peak range, costs no more than the best so far, matches more lines than the polynomial degree, at least the minimum number of matches and at least the minimum fraction of the supplied peaks, and its residual error is not below the minimum fit error. "
  "Only pairs closer than the RANSAC tolerance are counted and kept, and the solution is declared valid only if it matches more lines than the degree plus one. A solution that just reaches the minimum number or fraction of matches is not refused.",
  ["inputs", "schedules", "configurations"], "all random draws, data and settings",
  "Tests look at the final fit of easy synthetic data, where dropping or inverting a gate goes unnoticed.",
  [CAL], [("chain of rejections before acceptance", CAL + " _solve_candidate_ransac")])

p("C11", "A reported result describes one and the same solution",
  "The coefficients, matched lists, rms, residuals and utilisation fractions returned by a fit, match or refit are those stored on the calibrator, and the residuals and rms are computed from the returned coefficients and the returned pairs. "
  "The rms is the root mean square of the reported residuals; peak utilisation is the number of matched pairs over the number of supplied peaks, atlas utilisation the same over the number of atlas lines.",
  ["inputs", "configurations"], "all option combinations (refine, robust refit, initial coefficients), all data, including the fallbacks",
  "Tests recompute the rms on their own and check utilisation only against loose bounds on one path.",
  [CAL], [("result assembly", CAL + " fit, match_peaks, manual_refit")],
  [("fit_coeff, rms, residual(s), *_utilisation", "published result", CAL)])

p("C12", "A setting is changed only by passing it",
  "For every setting of the calibrator, Hough and RANSAC property calls: passing a value sets exactly that value, omitting it keeps the value set before, and a setting never given has a usable default. "
  "Values such as zero or False count as given. No call changes a setting it was not asked to change, except that a fit limits the sample size and the minimum number of matches to what the numbers of lines and peaks and the degree allow.",
  ["histories", "inputs", "configurations"], "every sequence of property calls with any subset of options",
  "Tests call each setter once or twice with a handful of options and do not read the others back.",
  [CAL, SY], [("three-way set/keep/default blocks", CAL + " set_calibrator_properties, set_hough_properties, set_ransac_properties"), ("limits", SY + " set_wavelength_limit")])

p("C13", "Search bounds and pairs always reflect the current settings",
  "After any public configuration call, the intercept and slope bounds used for the search are those implied by the current wavelength range, tolerances and pixel axis, and the pixel axis follows the current number of pixels or pixel list. "
  "The pixel-wavelength pairs considered by a fit are those of the current peaks and the current atlas lines, also after lines were removed or cleared through the calibrator. With the polygonal constraint they are the pairs inside the quadrilateral of the wavelengths allowed at the first and last pixel, widened by the candidate tolerance; a lamp added through the calibrator without limits covers the wavelength range widened by the range tolerance.",
  ["histories"], "every sequence of configuration calls",
  "Tests configure in one fixed order; re-configuring and editing the atlas afterwards is not checked.",
  [CAL], [("bounds recomputed in the Hough setter", CAL + " set_hough_properties"), ("pairs regenerated when the atlas changes", CAL + " set_atlas, add_atlas, add_user_atlas, remove_atlas_lines_range, clear_atlas")],
  [("min/max_slope, min/max_intercept, pairs, pixel_list", "derived search state", CAL)])

p("C14", "Pixels, wavelengths, dispersions and intensities are never interchanged",
  "Values of one physical kind (pixel position, wavelength, dispersion, intensity, weight, temperature, pressure, humidity) are never used where another kind is expected: not compared, added, stored, returned, binned, looked up or drawn as one another. "
  "In particular Hough points are (dispersion, wavelength), candidate pairs are (pixel, wavelength), the Hough density is looked up as (dispersion, wavelength), and plotted axes carry the label of what is drawn.",
  ["inputs", "configurations"], "all code paths and data",
  "Swapped arguments of equal shape run without error and most results are only checked loosely.",
  [CAL, HT, UT, PL, ATL], [("column roles of pairs, candidates and Hough points", CAL), ("histogram axes", HT), ("axis labels", PL)])

p("C15", "A saved Hough transform loads back as the same transform",
  "Every quantity written when a Hough transform is saved is restored on loading into the quantity it came from, with the same type, in both file formats, and nothing that loading needs is left out. "
  "The in-memory form returned instead of a file has the same content as the file. Loading and saving through a calibrator gives the same result as doing it on the transform itself.",
  ["inputs", "configurations"], "all transforms, both formats, disk or memory",
  "The existing assertions compare against a bound method and are always true; types are not checked.",
  [HT, CAL], [("writer table", HT + " save"), ("reader table", HT + " load"), ("delegation", CAL + " save_hough_transform, load_hough_transform")])

p("C16", "With a seed the calibration is reproducible",
  "With the same inputs and the same seed, two runs give identical results: every random decision is drawn from the generator that the seed setting initialises, and nothing else that varies between runs (time, process identity, hash order, other generators) influences results. "
  "The library never reseeds that generator except when a seed is given.",
  ["schedules", "inputs"], "all runs with a seed",
  "No test runs the same seeded fit twice and compares.",
  [CAL, MO, UT, HT], [("single seeded generator", CAL + " set_calibrator_properties"), ("draws", CAL + " _solve_candidate_ransac, _get_candidate_points_poly")])

p("C17", "Coefficients are used in the basis they were fitted in",
  "For each supported function family the coefficients a fit works with and returns are fitted, evaluated, differentiated and bounded in that same family, so evaluating the returned coefficients in the requested family reproduces the reported wavelengths. "
  "Coefficient order is lowest order first throughout.",
  ["inputs", "configurations"], "all function families, degrees and data",
  "The tests of the non-default families compare against power-series coefficients and so assert the mismatch.",
  [CAL, MO, SY], [("family selection", CAL + " fit"), ("robust refit", MO + " robust_polyfit"), ("derivative", UT + " _derivative")])

p("C18", "No option combination trips over an undefined name",
  "On every path through the library, each local variable, module name and object property that is read has been given a value before, whatever combination of documented options and call order is used: every property a method reads exists from construction on.",
  ["inputs", "histories", "configurations"], "all option combinations and call orders",
  "Only the option combinations that the tests name are run; for example matching with neither refinement nor refit is not.",
  [CAL, ATL, HT, UT, MO, PL, SY], [("attributes initialised at construction", CAL + " __init__"), ("locals initialised before branches", CAL + " match_peaks, _solve_candidate_ransac")])

p("C19", "Convenience methods pass every option through unchanged",
  "Each method of the calibrator that hands its work to the atlas, the Hough transform or the plotting module passes every option the caller gave, unaltered, to the option of the same meaning there, and returns what it returned. "
  "No option is dropped, swapped with another or replaced by a constant, and an option that is left out means the same as when it is left out of the operation the work is handed to.",
  ["inputs", "configurations"], "all delegating methods and all option values",
  "Tests use delegating methods with few non-default options and ignore most effects.",
  [CAL, PL, ATL, HT], [("plot_* delegation", CAL), ("deprecated add_atlas, add_user_atlas", CAL), ("Hough save/load delegation", CAL), ("Atlas constructor to add to line loading", ATL)])

p("C20", "Optional inputs may really be left out",
  "Everything documented as optional (the spectrum, known pairs, an initial solution, intensities, limits, file names) may be omitted: no call then fails because the missing value was used as if it were there. "
  "In particular a calibrator given only peaks supports configuring, fitting and every plot.",
  ["inputs", "configurations"], "all subsets of optional inputs, both plotting libraries",
  "Every plotting test supplies a spectrum.",
  [CAL, PL, ATL, UT, MO], [("None checks", PL + " plot_fit, plot_arc"), ("None defaults", CAL)])

p("C21", "Unsupported choices are rejected, supported ones all work",
  "Each documented choice of function family, file format, line-list form and plotting library selects exactly its own implementation; any other value of function family, Hough file type, line list or argument type is rejected with an error instead of being ignored or treated as another choice.",
  ["inputs", "configurations"], "all values of each choice",
  "A few unknown values are tested; the complete mapping is not.",
  [CAL, HT, UT, SY], [("family dispatch", CAL + " fit"), ("file type dispatch", HT + " load, save"), ("line list dispatch", UT + " load_calibration_lines"), ("type checks", SY)])

p("C22", "A rejected value is never stored",
  "Whenever a call rejects its input with an error (non-finite or out-of-range limits, mismatched lengths, non-numeric or NaN known pairs, invalid matching requirements), the value it rejected has not replaced the previous one. "
  "Every such documented requirement is checked before the value is kept.",
  ["inputs", "histories", "fault_sequences"], "all invalid inputs to every validating call",
  "Tests check only that some bad inputs raise, never the state afterwards, and not that every bad input is caught.",
  [CAL, HT, SY, ATL], [("assertions before assignment", HT + " set_constraints"), ("limit checks", SY + " set_wavelength_limit"), ("pair checks", CAL + " set_known_pairs"), ("requirement checks", CAL + " set_ransac_properties"), ("length checks", ATL + " add_user_atlas")])

p("C23", "The atlas keeps exactly the lines it was told to keep",
  "Adding lines, from a list or by the user, never drops, replaces or reorders lines already in the atlas; removing a range removes every line closer than the tolerance and no other; clearing removes all. "
  "Wavelengths, elements, intensities and the length all report the same lines in the same order, and one edit is visible in all of them.",
  ["inputs", "histories"], "all sequences of atlas edits",
  "Removal is tested with a single isolated line; adjacent lines used to survive.",
  [ATL, CAL], [("append", ATL + " add, add_user_atlas"), ("removal", ATL + " remove_atlas_lines_range"), ("getters", ATL + " get_lines, get_elements, get_intensities")])

p("C24", "Each fit attempt does a bounded amount of sampling",
  "The number of trial solutions of a fit is bounded by its inputs: every search loop either consumes one of finitely many samples or counts towards a limit, so a fit returns or fails even when no trial can ever be accepted. "
  "This holds for random sampling and for exhaustive search.",
  ["inputs", "schedules"], "all data, limits and draws, including infeasible ones",
  "Tests use feasible problems only; an infeasible search interval would hang.",
  [CAL], [("sample loop", CAL + " _solve_candidate_ransac")])

p("C25", "A fit matches peaks and lines one to one",
  "In the result of a fit no peak is matched to two lines and no line to two peaks; among competing peaks the one with the smallest error keeps the line. "
  "No randomly drawn sample uses one line for two peaks.",
  ["inputs", "schedules"], "all candidate sets and random draws",
  "Tests use well separated synthetic lines, where conflicts do not occur.",
  [CAL], [("bijective matching", CAL + " _match_bijective"), ("duplicate avoidance when sampling", CAL + " _solve_candidate_ransac")])

p("C26", "Every Hough point obeys the constraints and its own pair",
  "Each Hough point combines a dispersion with the intercept that this very dispersion gives for one pixel-wavelength pair, and lies inside the configured intercept limits and dispersion limits; points outside are removed in both columns together. "
  "Extending a transform keeps its old points. Hough lines are the centres of the histogram bins, most populated first.",
  ["inputs", "configurations"], "all pairs, limits, slope counts and bin counts, both generators",
  "Tests check set inclusion for one random example and nothing about intercepts or ordering.",
  [HT, CAL], [("point generation and mask", HT + " generate_hough_points, generate_hough_points_brute_force"), ("extension", HT + " add_hough_points"), ("binning", HT + " bin_hough_points")])

p("C27", "A synthetic spectrum always uses its latest model and limits",
  "After a model or a wavelength limit is set, the pixels returned are computed from exactly that model, for exactly the wavelengths strictly inside the current limits, and the returned pixels and wavelengths correspond one to one. "
  "The model, its degree and its coefficients always describe the same polynomial.",
  ["inputs", "histories"], "all sequences of model and limit changes",
  "The tests switch models only between degrees that ignore the stored coefficients and check lengths only.",
  [SY, MO], [("model setter", SY + " set_model"), ("limits", SY + " set_wavelength_limit"), ("inversion", SY + " get_pixels")])

p("C28", "Every shipped call fits the interface it calls",
  "Each call inside the library and in the shipped example scripts passes only options that the called function has, supplies all it requires, and unpacks exactly as many values as it returns. "
  "Public functions, methods and options that shipped code relies on exist.",
  ["programs", "configurations"], "all call sites of the package and the examples, on all paths",
  "Examples and most plotting paths are never run by tests.",
  [CAL, PL, ATL, UT, "examples/"], [("public signatures", CAL + ", " + PL + ", " + ATL), ("example scripts", "examples/*.py")])

p("C29", "Known pairs take part in every trial fit",
  "Once known pixel-wavelength pairs are set, every trial polynomial that random or exhaustive search fits includes all of them, each pixel with its own wavelength, in addition to the drawn sample. "
  "Without known pairs the trial uses the drawn sample only, and each drawn pixel is paired with a wavelength that is a candidate for that very pixel.",
  ["inputs", "schedules"], "all known pairs, draws and search modes",
  "Tests only check that the known pairs are stored.",
  [CAL], [("concatenation before the trial fit", CAL + " _solve_candidate_ransac"), ("storage", CAL + " set_known_pairs")])

p("C30", "Peak refinement treats every peak independently",
  "The refined position of a peak depends only on the spectrum inside its own window and its own initial position, and is reported in the pixel scale of the whole spectrum, also for peaks close to either edge. "
  "Only finite samples enter a fit, and only positions inside the spectrum are returned, none twice in a row.",
  ["inputs"], "all spectra (integer or float), peak positions, orders and window widths",
  "Refinement is only run on one well-behaved spectrum and its values are not checked.",
  [UT], [("window extraction and offset", UT + " refine_peaks")])

p("C31", "Candidate matches are near their guide and ranked by support",
  "A candidate match pairs a peak with a line of the current pair list that lies within the candidate tolerance of a guide's prediction for that peak (a Hough line, or the shifted guess solution), and carries its own weight, which falls with its own distance from that prediction. "
  "When candidates are pooled, the support of a line for a peak is summed over all candidates naming both (the weights if weighting is on, one each otherwise), and for every peak at most the requested number of lines, those with the greatest support, are kept. An index, ranking or mask is only applied to a list with the rows it was computed from.",
  ["inputs", "configurations"], "all Hough lines, guesses, tolerances, top-n limits and both weighting settings",
  "The candidates are private intermediate results that no test looks at; a fit that starts from worse candidates still often succeeds.",
  [CAL, PL], [("candidates of a Hough line or guess", CAL + " _get_candidate_points_linear, _get_candidate_points_poly"), ("pooling and ranking", CAL + " _get_most_common_candidates")])

p("C32", "The peaks of a random trial can always be drawn",
  "In a fit that is not a brute force one, every trial draws different candidate peaks, never more than there are, and the weights of the draw are positive, finite and add up to one: each peak is weighted with one over the number of peaks in the very histogram bin it was counted in. No arrangement of the peaks relative to the bins makes the fit fail or draw a peak twice.",
  ["inputs", "configurations"], "all sets of candidate peaks (at the edges of the bins and inside), sample sizes and degrees",
  "Only peaks that happen to lie off the bin edges are fitted in the tests; a peak on an edge next to an empty bin made fit raise an error.",
  [CAL], [("sampling weights and draw of a trial", CAL + " _solve_candidate_ransac")])

p("C33", "A solution has the degree that was asked for",
  "Every polynomial that a fit, a match or a manual refit determines has the degree the caller gave, or, when coefficients are given instead (or, for a match or refit, nothing is given), the degree of the solution it starts from: as many coefficients come back as went in. "
  "A manual refit starts from the coefficients given, else from the current solution. A fit and a manual refit never determine a polynomial from fewer matches than it has coefficients; a trial draws at least one point more than the degree.",
  ["inputs", "configurations", "histories"], "all degrees, given or omitted, starting coefficients, sample sizes and numbers of matches, for every function family",
  "The tests fit with degrees that equal the default or the degree of the previous solution and never have too few matches.",
  [CAL], [("degree of a fit", CAL + " fit, _solve_candidate_ransac"), ("degree and start of a match and of a refit", CAL + " match_peaks, manual_refit")])

p("C34", "A plot shows the given solution and the calibrator's own data",
  "Every plot evaluates the solution with the coefficients it was given, at pixel positions. What is drawn as one series pairs values of the same item: the wavelength of a peak with that peak, the counts with the pixels they were counted in, the count marked at a peak with the spectrum at the place of that peak. "
  "The residuals shown are the differences between a matched line (or the line nearest to the solution) and the wavelength of the solution at that peak, and the level shown as their rms is the root mean square of exactly those residuals. "
  "The plots of the search space and of the arc show the same data under the same conditions with matplotlib and with plotly.",
  ["inputs", "configurations", "histories"], "all solutions, calibrator states, spectra and pixel lists, both plotting libraries, linear and logarithmic",
  "The tests only check that plotting does not raise; a residual panel that was always zero passed them.",
  [PL], [("plots", PL + " plot_fit, plot_search_space, plot_arc")])

p("C35", "No option is silently ignored",
  "Every option of a public function or method has an effect: whether the call returns something, and what it returns, stores, draws or writes, depends on it. Checking or logging the value is not an effect.",
  ["inputs", "configurations"], "all public functions and methods and all of their options",
  "Most options are left at their defaults in the tests, where an ignored option makes no difference.",
  [CAL, ATL, UT, PL, SY, HT, MO], [("public API", CAL + ", " + PL + ", " + UT)])

p("C36", "Solutions are scored by their own misfit and their own Hough density",
  "The score that decides between trial solutions is computed from the trial solution itself: it rises with the errors of its matches, an error above the RANSAC tolerance counting as the tolerance, per degree of freedom, and falls with the density of the Hough transform at the slope and the intercept of the tangent at each pixel; the density is interpolated between the centres of the bins, slopes and intercepts in the order they were counted in. "
  "An adjustment of a given solution minimises the squared errors of the adjusted solution per degree of freedom, over solutions that increase with the pixel and match at least the required fraction of the peaks.",
  ["inputs", "configurations"], "all data, settings and polynomial types, with and without Hough weighting",
  "The tests fit easy data, in which nearly any score finds the same solution; a wrong score only loses the harder ones.",
  [CAL, HT], [("cost of a trial", CAL + " _solve_candidate_ransac"), ("adjustment", CAL + " match_peaks, _adjust_polyfit")])

# properties outside the reach of static analysis
p("N01", "RANSAC finds the correct solution with high probability",
  "For a spectrum that satisfies the documented assumptions, a fit with enough tries returns the true pixel-to-wavelength relation within the tolerance.",
  ["inputs", "schedules"], "all instruments and lamps", "Tests sample a few data sets and seeds.",
  [CAL], [("RANSAC loop", CAL + " _solve_candidate_ransac")])
p("N02", "The robust refit is insensitive to outliers",
  "The robust polynomial fit converges to the Huber-loss minimiser of its data for any well-conditioned data set, independent of scale.",
  ["inputs"], "all data sets", "Only near-exact synthetic data are fitted.", [MO], [("Huber least squares", MO + " robust_polyfit")])
p("N03", "Refined peaks are closer to the line centre than the initial ones",
  "For an isolated, well-sampled line the refined position is within a small fraction of a pixel of the true centre.",
  ["inputs"], "all line shapes and noise", "Accuracy is not asserted.", [UT], [("Gaussian fit", UT + " refine_peaks")])
p("N04", "Air-vacuum conversion round trips to numerical accuracy",
  "Converting to air and back returns the original wavelength within a stated tolerance over the supported range.",
  ["inputs"], "all wavelengths and conditions", "Only one direction at eight wavelengths is tested.", [UT], [("conversions", UT)])
p("N05", "Synthetic pixels invert the model",
  "Evaluating the model at a returned pixel gives the requested wavelength within numerical tolerance.",
  ["inputs"], "all monotonic models", "Only lengths are tested.", [SY], [("numerical inversion", SY + " get_pixels")])
p("N06", "Search time stays practical",
  "A default fit of a typical arc completes in seconds.",
  ["inputs"], "typical instruments", "Timing is not measured.", [CAL], [("RANSAC loop", CAL)])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
