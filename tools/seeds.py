"""Planted bugs: written from the properties and the code alone."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs,
                      breaks=breaks, demo=demo))


C, A, U, H = 'calibrator.py', 'atlas.py', 'util.py', 'houghtransform.py'
M, P, S = 'models.py', 'plotting.py', 'synthetic.py'

seed('c12-zero-fit-error', 'C12',
     [(C, 'if minimum_fit_error is not None:', 'if minimum_fit_error:')],
     'minimum_fit_error=0 after another value was set',
     'passing zero is treated as not passing the option',
     '''
from rascal.calibrator import Calibrator
c = Calibrator(np.arange(10.0) * 100)
c.set_ransac_properties(minimum_fit_error=0.5)
c.set_ransac_properties(minimum_fit_error=0.0)
assert c.minimum_fit_error == 0.0, c.minimum_fit_error
''')

seed('c23-blend-dropped', 'C23',
     [(A, '''            self.atlas_lines.append(AtlasLine(line, element, intensity))
''', '''            if line not in self.get_lines():
                self.atlas_lines.append(AtlasLine(line, element, intensity))
''')],
     'two user lines of different elements at the same wavelength',
     'a line that was added is not in the atlas',
     '''
from rascal.atlas import Atlas
a = Atlas()
a.add_user_atlas(["Xe"], [5000.0], [1.0])
a.add_user_atlas(["Kr", "Ar"], [5000.0, 6000.0], [2.0, 3.0])
assert len(a) == 3, len(a)
assert a.get_elements() == ["Xe", "Kr", "Ar"]
''')

seed('c06-humidity-lost', 'C06',
     [(U, '''    # Air wavelengths
''', '''    # Air wavelengths
''')] if False else
     [(A, '''            wavelengths = vacuum_to_air_wavelength(
                wavelengths, temperature, pressure, relative_humidity
            )
''', '''            wavelengths = vacuum_to_air_wavelength(
                wavelengths, temperature, pressure
            )
''')],
     'user lines in vacuum with a humidity other than zero',
     'the conversion ignores the humidity given',
     '''
from rascal.atlas import Atlas
out = []
for rh in (0.0, 90.0):
    a = Atlas()
    a.add_user_atlas(["Xe"], [5000.0], [1.0], vacuum=True,
                     temperature=303.15, relative_humidity=rh)
    out.append(a.get_lines()[0])
assert out[0] != out[1], out
''')

# a small calibration whose solution is known
FIT = '''
from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
rng = np.random.RandomState(3)
lines = np.sort(rng.uniform(4200, 7800, 24))
lines = lines[np.concatenate(([True], np.diff(lines) > 40))]
peaks = (lines - 4000.0) / 4.0


def make(peaks=peaks, lines=lines, **kw):
    c = Calibrator(peaks, **kw)
    c.set_calibrator_properties(num_pix=1000, seed=1, log_level="critical")
    c.set_hough_properties(num_slopes=500, xbins=50, ybins=50,
                           min_wavelength=4000.0, max_wavelength=8000.0,
                           range_tolerance=100.0, linearity_tolerance=50.0)
    a = Atlas()
    a.add_user_atlas(["Xe"] * len(lines), list(lines))
    c.set_atlas(a, candidate_tolerance=5.0)
    c.set_ransac_properties(sample_size=4, top_n_candidate=3,
                            ransac_tolerance=3.0, minimum_fit_error=0.0)
    return c

'''

seed('c03-svg-prefix', 'C03',
     [(P, '''            filename_output = "rascal_arc"

        else:
            filename_output = filename

        for t in fig_type:
            if t in ["jpg", "png", "svg", "pdf"]:
                plt.savefig(filename_output + "." + t, format=t)
''', '''            filename_output = "rascal_arc"

        else:
            filename_output = filename.split(".")[0]

        for t in fig_type:
            if t in ["jpg", "png", "svg", "pdf"]:
                plt.savefig(filename_output + "." + t, format=t)
''')],
     'a file name that contains a dot',
     'the plot is saved under another name than the one requested',
     '''
import tempfile
from rascal import plotting
import matplotlib
matplotlib.use("Agg")
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    plotting.plot_calibration_lines(
        elements=["Xe"], min_atlas_wavelength=5000.0,
        max_atlas_wavelength=6000.0, save_fig=True, fig_type="png",
        filename="night_2.1_arc", display=False)
    found = os.listdir(d)
    os.chdir("/")
assert found == ["night_2.1_arc.png"], found
''')

seed('c04-user-lines-sorted', 'C04',
     [(A, '''            wavelengths = vacuum_to_air_wavelength(
                wavelengths, temperature,''',
       '''            wavelengths = vacuum_to_air_wavelength(
                sorted(wavelengths), temperature,''')],
     'user lines in vacuum that are not given in wavelength order',
     'the wavelengths change places, the elements and intensities do not',
     '''
from rascal.atlas import Atlas
a = Atlas()
a.add_user_atlas(["Xe", "Kr", "Ar"], [6000.0, 5000.0, 7000.0],
                 [1.0, 2.0, 3.0], vacuum=True)
got = dict(zip(a.get_elements(), a.get_lines()))
assert abs(got["Xe"] - 6000) < 5 and abs(got["Kr"] - 5000) < 5, got
''')

seed('c05-lowest-threshold', 'C05',
     [(U, 'min_intensity_dict[e] = min_intensity[i]',
       'min_intensity_dict[e] = min(min_intensity)')],
     'a minimum intensity for each of several elements',
     'lines fainter than the minimum of their element are kept',
     '''
from rascal.util import filter_intensity
lines = [("Xe", 5000.0, 50.0), ("Kr", 6000.0, 50.0), ("Kr", 7000.0, 5.0)]
mask = filter_intensity(["Xe", "Kr"], lines, [100.0, 10.0])
assert list(mask) == [False, True, False], mask
''')

seed('c06-limits-at-sea-level', 'C06',
     [(U, '''            (min_atlas_wavelength, max_atlas_wavelength),
            temperature,
            pressure,
            relative_humidity,
        )
''', '''            (min_atlas_wavelength, max_atlas_wavelength), temperature
        )
''')],
     'a low pressure and a line close to a limit',
     'the limits are converted at another pressure than the lines',
     '''
from rascal.util import load_calibration_lines, vacuum_to_air_wavelength
_, vac, _ = load_calibration_lines(["Xe"], 5000.0, 9000.0, 0, 0, vacuum=True)
vac = vac[len(vac) // 2]
air = float(vacuum_to_air_wavelength(vac, 273.15, 60000.0, 0.0))
for lo, hi, n in ((air - 0.1, air + 1e-4, True), (air + 1e-4, air + 0.1, False),
                  (air - 0.1, air - 1e-4, False)):
    _, w, _ = load_calibration_lines(["Xe"], lo, hi, 0, 0, pressure=60000.0)
    assert bool(np.any(np.abs(w - air) < 1e-6)) == n, (lo, hi, w, air)
''')

seed('c07-vapour-sign', 'C07',
     [(U, '(3.7345 - 0.0401 * S)', '(3.7345 - 0.0401 / S)')],
     'a humidity other than zero',
     'the water vapour term uses the wavelength the wrong way round',
     '''
from rascal.util import edlen_refraction
dry = edlen_refraction(5000.0, 20.0, 101325.0, 0.0)
wet = edlen_refraction(5000.0, 20.0, 101325.0, 1000.0)
S = 4.0
want = 1e-10 * (292.75 / 293.15) * (3.7345 - 0.0401 * S) * 1000.0
assert abs((dry - wet) - want) < 1e-12, (dry - wet, want)
''')

seed('c08-refit-half-updated', 'C08',
     [(C, '''        if matched_peaks is None:
            matched_peaks = self.matched_peaks

''', '''        if matched_peaks is None:
            matched_peaks = self.matched_peaks

        else:
            self.matched_peaks = copy.deepcopy(matched_peaks)

''')],
     'a manual refit that is rejected, with new peaks but the old lines',
     'the pixels are replaced and the wavelengths are not',
     FIT + '''
c = make()
c.fit(max_tries=50, fit_deg=1)
p, w = list(c.matched_peaks), list(c.matched_atlas)
try:
    c.manual_refit(matched_peaks=p[:-2], degree=1)
    raise SystemExit("not rejected")
except AssertionError:
    pass
assert list(c.matched_peaks) == p and list(c.matched_atlas) == w
assert len(c.matched_peaks) == len(c.matched_atlas)
''')

seed('c09-known-pair-reported', 'C09',
     [(C, '''            candidates[p] = y[x == p]

        twoditp = None
''', '''            candidates[p] = y[x == p]

        if self.pix_known is not None:
            for p, w in zip(self.pix_known, self.wave_known):
                if p not in candidates:
                    candidates[p] = np.array([w])
                    peaks = np.sort(np.append(peaks, p))

        twoditp = None
''')],
     'a fit with a known pair that is not one of the peaks',
     'the known pair is reported as a matched peak and line',
     FIT + '''
c = make()
c.set_known_pairs(5.0, 4020.0)
c.fit(max_tries=50, fit_deg=1)
assert set(c.matched_peaks) <= set(peaks), c.matched_peaks
assert set(c.matched_atlas) <= set(lines), c.matched_atlas
''')

seed('c11-rms-of-the-sample', 'C11',
     [(C, 'rms_residual = np.sqrt(np.mean(residual**2))',
       'rms_residual = np.sqrt(np.mean(err[mask] ** 2))')],
     'peaks that do not lie exactly on a polynomial',
     'the rms reported is that of the trial fit, not of the solution',
     FIT + '''
c = make(peaks=peaks + rng.uniform(-0.2, 0.2, len(peaks)))
out = c.fit(max_tries=50, fit_deg=1)
res = np.asarray(out[4], dtype=float)
assert abs(out[3] - np.sqrt(np.mean(res ** 2))) < 1e-12, out[3]
''')

seed('c13-old-pairs', 'C13',
     [(C, '''        # from atlas
        self._generate_pairs()
''', '''        # from atlas
        if self.pairs is None or constrain_poly:
            self._generate_pairs()
''')],
     'replacing the atlas of a calibrator',
     'the pairs are those of the previous atlas',
     FIT + '''
c = make()
b = Atlas()
b.add_user_atlas(["Kr"] * 5, list(lines[:5] + 1.0))
c.set_atlas(b)
assert set(np.asarray(c.pairs)[:, 1]) == set(b.get_lines())
''')

seed('c15-edges-as-integers', 'C15',
     [(H, 'self.yedges = input_npy[3].astype("float")',
       'self.yedges = input_npy[3].astype("int").astype("float")')],
     'edges of the histogram that are not whole numbers',
     'the edges loaded are not those saved',
     '''
import tempfile
from rascal.houghtransform import HoughTransform
h = HoughTransform()
h.set_constraints(1.0, 5.0, 3000.5, 5000.25)
h.generate_hough_points(np.array([10.3, 50.7]), np.array([4000.1, 4100.7]),
                        200)
h.bin_hough_points(7, 9)
g = HoughTransform()
with tempfile.TemporaryDirectory() as d:
    h.save(filename=os.path.join(d, "ht"), fileformat="npy")
    g.load(filename=os.path.join(d, "ht"), filetype="npy")
assert np.allclose(g.yedges, h.yedges), (g.yedges, h.yedges)
''')

seed('c16-other-generator', 'C16',
     [(C, '                            y_temp = np.random.choice(y_choice)\n\n',
       '                            y_temp = y_choice[\n'
       '                                np.random.default_rng().integers('
       'len(y_choice))\n                            ]\n\n')],
     'peaks with more than one candidate line',
     'the wavelengths of a sample do not follow the seed',
     FIT + '''
import rascal.calibrator as mod
runs = []
for _ in range(4):
    c = make(lines=np.sort(np.concatenate((lines, lines + 9.0, lines - 7.0))))
    log = []
    fit = np.polynomial.polynomial.polyfit
    old = np.polynomial.polynomial.polyfit

    def spy(x, y, d):
        log.append((tuple(x), tuple(y)))
        return old(x, y, d)

    np.polynomial.polynomial.polyfit = spy
    try:
        c.fit(max_tries=20, fit_deg=1)
    except AssertionError:
        pass
    finally:
        np.polynomial.polynomial.polyfit = old
    runs.append(log)
assert all(r == runs[0] for r in runs)
''')

seed('c18-no-label-position', 'C18',
     [(P, '''        vline_max = 1.0
        text_box_pos = 0.5
''', '''        vline_max = 1.0
''')],
     'plotting a fit without a spectrum',
     'a variable is read that was never given a value',
     FIT + '''
import matplotlib
matplotlib.use("Agg")
c = make()
c.fit(max_tries=50, fit_deg=1)
c.plot_fit(display=False)
''')

seed('c19-renderer-dropped', 'C19',
     [(C, '''            top_n_candidate=top_n_candidate,
            weighted=weighted,
            save_fig=save_fig,''', '''            top_n_candidate=top_n_candidate,
            weighted=self.candidate_weighted,
            save_fig=save_fig,''')],
     'plot_search_space with weighted=False',
     'the option is replaced by the setting of the calibrator',
     FIT + '''
from rascal import plotting
c = make()
got = {}
old = plotting.plot_search_space
plotting.plot_search_space = lambda *a, **k: got.update(k)
c.plot_search_space(weighted=False)
plotting.plot_search_space = old
assert got["weighted"] is False, got
''')

seed('c20-spectrum-needed', 'C20',
     [(P, '''        else:
            plt.xlim(0, max(calibrator.peaks))
''', '''        else:
            plt.xlim(0, calibrator.spectrum.shape[0])
''')],
     'plotting the arc of a calibrator without a spectrum',
     'the missing spectrum is used',
     FIT + '''
import matplotlib
matplotlib.use("Agg")
make().plot_arc(display=False)
''')

seed('c22-fit-error-kept', 'C22',
     [(C, '''            assert minimum_fit_error >= 0
            self.minimum_fit_error = minimum_fit_error
''', '''            self.minimum_fit_error = minimum_fit_error
            assert minimum_fit_error >= 0
''')],
     'a negative minimum fit error',
     'the rejected value has replaced the previous one',
     '''
from rascal.calibrator import Calibrator
c = Calibrator(np.arange(10.0) * 100)
c.set_ransac_properties(minimum_fit_error=0.5)
try:
    c.set_ransac_properties(minimum_fit_error=-1.0)
    raise SystemExit("not rejected")
except AssertionError:
    pass
assert c.minimum_fit_error == 0.5, c.minimum_fit_error
''')

seed('c23-sorted-on-add', 'C23',
     [(A, '''            self.atlas_lines.append(AtlasLine(line, element, intensity))
''', '''            self.atlas_lines.append(AtlasLine(line, element, intensity))

        self.atlas_lines.sort(key=lambda line: line.wavelength)
''')],
     'adding user lines below the lines already in the atlas',
     'the lines already in the atlas change their position',
     '''
from rascal.atlas import Atlas
a = Atlas()
a.add_user_atlas(["Xe", "Kr"], [6000.0, 7000.0])
a.add_user_atlas(["Ar"], [5000.0])
assert a.get_lines() == [6000.0, 7000.0, 5000.0], a.get_lines()
''')

seed('c25-first-peak-wins', 'C25',
     [(C, '''            err_idx = np.argmin(err[mask])
''', '''            err_idx = np.argmax(mask[mask])
''')],
     'two peaks closest to the same line',
     'the first peak keeps the line, not the one with the smallest error',
     FIT + '''
c = make()
err, x, y = c._match_bijective({10.0: np.array([4040.0]),
                                10.5: np.array([4040.0, 4300.0])},
                               [10.0, 10.5], [3998.0, 4.0])
assert list(x) == [10.5] and list(y) == [4040.0] and err[0] == 0, (err, x, y)
''')

seed('c26-other-point', 'C26',
     [(H, 'intercept_tmp = y[i + 1 :] - gradient_tmp * x[i + 1 :]',
       'intercept_tmp = y[i + 1 :] - gradient_tmp * x[i]')],
     'the brute force Hough transform',
     'the intercept is not that of the line through the two points',
     '''
from rascal.houghtransform import HoughTransform
h = HoughTransform()
h.set_constraints(0.5, 5.0, 3000.0, 5000.0)
x, y = np.array([10.0, 50.0, 80.0]), np.array([4000.0, 4100.0, 4190.0])
h.generate_hough_points_brute_force(x, y)
for m, b in h.hough_points:
    assert np.sum(np.abs(m * x + b - y) < 1e-6) >= 2, (m, b)
''')

seed('c27-limit-after-failure', 'C27',
     [(S, '''        wavelengths = wavelengths[wavelengths < self.max_wavelength]
''', '''        wavelengths = wavelengths[wavelengths <= self.max_wavelength]
''')],
     'a wavelength equal to the upper limit',
     'a wavelength that is not inside the limits is returned',
     '''
from rascal.synthetic import SyntheticSpectrum
s = SyntheticSpectrum([100.0, 2.0], 200.0, 1000.0)
p, w = s.get_pixels([300.0, 1000.0])
assert list(w) == [300.0], w
''')


seed('c01-refine-in-place', 'C01',
     [(C, '        fit_new = fit.copy()\n', '        fit_new = np.asarray(fit)\n')],
     'match_peaks with refine and the solution given as a float array',
     'the array of coefficients of the caller is adjusted in place',
     FIT + '''
c = make()
guess = np.array([3999.0, 4.001])
before = guess.copy()
c.match_peaks(guess, refine=True, tolerance=5.0, n_delta=2)
assert np.array_equal(guess, before), (guess, before)
''')

seed('c02-peaks-shifted', 'C02',
     [(P, """            fitted_peaks.append(p)
            fitted_diff.append(diff[idx])
            calibrator.logger.info(
""", """            fitted_peaks.append(p)
            fitted_diff.append(diff[idx])
            calibrator.residuals = fitted_diff
            calibrator.logger.info(
""")],
     'plotting the fit after a match or a refit',
     'the residuals of the calibrator are overwritten by the plot',
     FIT + '''
import matplotlib
matplotlib.use("Agg")
c = make()
c.hough_lines, c.hough_points = [(4.0, 4000.0)], np.zeros((1, 2))
c.fit(max_tries=50, fit_deg=1)
c.match_peaks()
before = np.array(c.residuals)
c.plot_fit(display=False)
assert np.array_equal(before, c.residuals)
''')

seed('c10-utilisation-of-candidates', 'C10',
     [(C, '''                    if n_inliers < self.minimum_peak_utilisation * len(
                        self.peaks
                    ):''', '''                    if n_inliers < self.minimum_peak_utilisation * len(
                        peaks
                    ):''')],
     'peaks that have no candidate line, and a minimum utilisation',
     'the fraction is taken of the peaks with a candidate, not of all peaks',
     FIT + '''
extra = np.linspace(5.0, 995.0, 40)
extra = np.array([p for p in extra if np.min(np.abs(
    4000 + 4 * p - lines)) > 25])
c = make(peaks=np.sort(np.concatenate((peaks, extra))))
assert len(peaks) < 0.75 * (len(peaks) + len(extra))
c.hough_lines, c.hough_points = [(4.0, 4000.0)], np.zeros((1, 2))
c.set_ransac_properties(minimum_peak_utilisation=0.75)
try:
    out = c.fit(max_tries=60, fit_deg=1, candidate_tolerance=2.0)
except AssertionError:
    out = None
assert out is None or out[5] >= 0.75, out[5]
''')

seed('c17-refine-basis', 'C17',
     [(C, '''            x = self.polyval(p, fit_new)
            diff = atlas_lines - x
            diff_abs = np.abs(diff)
''', '''            x = np.polynomial.polynomial.polyval(p, fit_new)
            diff = atlas_lines - x
            diff_abs = np.abs(diff)
''')],
     'refining a solution in another family than plain polynomials',
     'coefficients of Legendre polynomials are evaluated as powers',
     FIT + '''
c = make(lines=4000.0 + 4.0 * peaks + 3e-4 * peaks ** 2)
c.polyfit = np.polynomial.legendre.legfit
c.polyval = np.polynomial.legendre.legval
true = c.polyfit(peaks, np.array(c.atlas.get_lines()), 2)
guess = true + np.array([2.0, 0.0, 0.0])
out = c.match_peaks(guess, n_delta=1, refine=True, tolerance=6.0,
                    robust_refit=False)[0]
assert abs(out[0] - true[0]) < 0.1, (out, true)
''')

seed('c21-linelist-fallback', 'C21',
     [(U, """            raise ValueError(
                f"Unknown string is provided as linelist: {linelist}."
            )
""", """            lines = np.empty((0, 3), dtype=object)
""")],
     'a line list name that does not exist',
     'an unknown line list is treated as an empty one',
     '''
from rascal.util import load_calibration_lines
try:
    load_calibration_lines(["Xe"], 5000.0, 6000.0, linelist="nosuchlist")
except ValueError:
    raise SystemExit(0)
raise SystemExit("not rejected")
''')

seed('c29-not-in-brute-force', 'C29',
     [(C, 'if self.pix_known is not None:\n                    x_hat',
       'if self.pix_known is not None and not brute_force:\n'
       '                    x_hat')],
     'a brute force fit with known pairs',
     'the known pairs are not part of the trial fits',
     FIT + '''
c = make(peaks=peaks[::2], lines=lines[::2])
c.hough_lines, c.hough_points = [(4.0, 4000.0)], np.zeros((1, 2))
c.set_known_pairs(5.0, 4020.0)
seen = []
old = np.polynomial.polynomial.polyfit


def spy(x, y, d):
    seen.append(list(x))
    return old(x, y, d)


np.polynomial.polynomial.polyfit = spy
try:
    c.fit(max_tries=5, fit_deg=1, brute_force=True, progress=False)
finally:
    np.polynomial.polynomial.polyfit = old
assert seen and all(5.0 in x for x in seen)
''')

seed('c30-stop-at-flat', 'C30',
     [(U, '''        if n == 0:
            continue
''', '''        if n == 0:
            break
''')],
     'a peak inside a flat stretch at zero, before other peaks',
     'the peaks after it are lost',
     '''
from rascal.util import refine_peaks
x = np.arange(200.0)
s = np.exp(-((x - 100.3) ** 2) / 8.0) + 1e-3
s[:40] = 0.0
got = refine_peaks(s, [20, 100])
assert len(got) == 1 and abs(got[0] - 100.3) < 0.01, got
''')

seed('c31-best-single-candidate', 'C31',
     [(C, 'aggregated_count[j] = np.sum(counts[idx_j])',
       'aggregated_count[j] = np.max(counts[idx_j])')],
     'a line that several candidates name with a moderate weight',
     'the support of a line is its largest weight, not the sum',
     FIT + '''
c = make()
a, b = ([1.0], [5000.0], [0.6]), ([1.0], [5001.0], [0.9])
p, w = c._get_most_common_candidates([a, b, a, a], 1, True)
assert list(w) == [5000.0], w
''')

seed('c32-draw-more-than-unique', 'C32',
     [(C, '(self.sample_size >= len(np.unique(x)))',
       '(self.sample_size >= len(x))')],
     'fewer candidate peaks than the sample size, each with several lines',
     'more different peaks are drawn than there are: the fit fails',
     FIT + '''
c = make(peaks=peaks[[1, 6, 12]])
c.hough_lines = [(4.0, 4000.0), (4.0, 4040.0), (4.0, 3960.0)]
c.hough_points = np.zeros((3, 2))
drawn = []
old = np.random.choice


def spy(a, size=None, **kw):
    out = old(a, size, **kw)
    if size is not None:
        drawn.append(list(out))
    return out


np.random.choice = spy
try:
    c.fit(max_tries=20, fit_deg=1, candidate_tolerance=60.0, progress=False)
except AssertionError:
    pass
finally:
    np.random.choice = old
assert drawn and all(len(set(d)) == len(d) for d in drawn)
''')

seed('c32-weights-of-pairs', 'C32',
     [(C, '            h = np.histogram(peaks, bins=10)\n',
       '            h = np.histogram(x, bins=10)\n')],
     'a peak with more candidate lines than the others',
     'the peaks are weighted with the number of candidate pairs in the bin',
     FIT + '''
lines = np.array(sorted([4010.0, 4800.0, 4820.0, 4840.0, 5600.0, 6400.0,
                         7200.0, 7900.0]))
c = make(peaks=(np.delete(lines, [2, 3]) - 4000.0) / 4.0, lines=lines)
c.hough_lines, c.hough_points = [(4.0, 4000.0)], np.zeros((1, 2))
c.set_ransac_properties(sample_size=3, top_n_candidate=3)
got = []
old = np.random.choice


def spy(a, size=None, **kw):
    if kw.get('p') is not None:
        got.append(np.array(kw['p']))
    return old(a, size, **kw)


np.random.choice = spy
try:
    c.fit(max_tries=20, fit_deg=1, candidate_tolerance=60.0, progress=False)
except AssertionError:
    pass
finally:
    np.random.choice = old
assert got and all(np.allclose(p, 1.0 / len(p)) for p in got), got[0]
''')

seed('c33-underdetermined-refit', 'C33',
     [(C, '        assert degree <= len(x) - 1\n',
       '        assert degree <= len(x)\n')],
     'a manual refit with as many matches as the degree',
     'a polynomial is determined from too few matches',
     FIT + '''
c = make()
try:
    c.manual_refit([10.0, 500.0], [4040.0, 6000.0], degree=2)
except AssertionError:
    pass
else:
    raise SystemExit('refitted with too few matches')
''')

seed('c33-refit-degree-of-fit', 'C33',
     [(C, '''            x0 = self.fit_coeff
            degree = len(x0) - 1
''', '''            x0 = self.fit_coeff
            degree = self.fit_deg
''')],
     'manual refit without arguments after a refit of another degree',
     'the refit has the degree of the last RANSAC fit',
     FIT + '''
c = make()
c.hough_lines, c.hough_points = [(4.0, 4000.0)], np.zeros((1, 2))
c.fit(max_tries=100, fit_deg=2, candidate_tolerance=20.0, progress=False)
x = np.linspace(10.0, 900.0, 12)
c.manual_refit(x, 4000.0 + 4 * x, degree=1)
assert len(c.fit_coeff) == 2
c.manual_refit()
assert len(c.fit_coeff) == 2, c.fit_coeff
''')

PLOT = FIT + '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt


def solved(**kw):
    c = make()
    c.fit_coeff = [4000.0, 4.0]
    c.matched_peaks, c.matched_atlas = list(peaks), list(lines)
    return c


'''

seed('c34-own-solution', 'C34',
     [(P, '''                calibrator.polyval(calibrator.peaks, fit_coeff),
                color="C4",
''', '''                calibrator.polyval(calibrator.peaks, calibrator.fit_coeff),
                color="C4",
''')],
     'plotting another solution than the current one',
     'the search space shows the current solution, not the given one',
     PLOT + '''
c = solved()
c.use_matplotlib()
c.hough_lines, c.hough_points = [(4.0, 4000.0)], np.zeros((1, 2))
c.candidate_tolerance = 20.0
c._get_candidate_points_linear(20.0)
if not c.candidates:
    c.candidates = [(peaks, lines, np.ones(len(peaks)))]
c._generate_pairs()
c.plot_search_space(fit_coeff=[4100.0, 3.9], display=False)
got = [s.get_offsets() for s in plt.gca().collections
       if s.get_label() == "Solution"]
assert len(got) == 1
assert np.allclose(np.asarray(got[0])[:, 1], 4100.0 + 3.9 * peaks)
''')

seed('c34-rms-of-all', 'C34',
     [(P, '''        # Middle plot - Residual plot
        rms = np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))
''', '''        # Middle plot - Residual plot
        rms = np.sqrt(np.mean(np.array(all_diff) ** 2.0))
''')],
     'plotly, and a peak that matches no line within the tolerance',
     'the rms shown is not that of the residuals shown',
     PLOT + '''
import json
p = np.append(peaks, 990.0)
c = make(peaks=p)
c.use_plotly()
fig = json.loads(c.plot_fit([4000.3, 4.0], tolerance=2.0, display=False,
                            return_jsonstring=True))
level = [max(abs(v) for v in d["y"]) for d in fig["data"]
         if d.get("yaxis") == "y2" and d.get("mode") == "lines"
         and isinstance(d["y"], list)]
assert level and max(level) < 2.0, level
''')

seed('c34-peaks-of-the-solution', 'C34',
     [(P, '''        for i in calibrator.peaks:
            fig.add_shape(
                type="line",
                xref="x",
                yref="y",
''', '''        for i in calibrator.matched_peaks or calibrator.peaks:
            fig.add_shape(
                type="line",
                xref="x",
                yref="y",
''')],
     'plot_arc with plotly after a fit that matched only some peaks',
     'the arc is drawn without the peaks that were not matched',
     PLOT + '''
import json
c = solved()
c.matched_peaks = c.matched_peaks[:3]
c.spectrum = np.ones(1000)
c.use_plotly()
fig = json.loads(c.plot_arc(display=False, return_jsonstring=True))
assert len(fig["layout"]["shapes"]) == len(peaks)
''')

seed('c34-count-at-pixel', 'C34',
     [(P, 'spectrum[int(calibrator.pix_to_rawpix(p))]',
       'spectrum[int(p)]')],
     'an effective pixel list with a gap and plotly',
     'the count drawn for a peak is that of another pixel',
     PLOT + '''
import json
c = make()
pix = np.concatenate((np.arange(500.0), np.arange(500.0) + 700.0))
c.set_calibrator_properties(num_pix=1000, pixel_list=pix)
c.peaks = np.array([100.0, 900.0])
c.atlas.atlas_lines[0].wavelength = 4000.0 + 400.0
c.atlas.atlas_lines[1].wavelength = 4000.0 + 3600.0
c.use_plotly()
try:
    fig = json.loads(c.plot_fit([4000.0, 4.0], spectrum=np.arange(1000.0),
                                display=False, return_jsonstring=True))
except IndexError as e:
    raise SystemExit(str(e))
y = [d["y"] for d in fig["data"] if d.get("yaxis") == "y3"
     and d.get("mode") == "markers"][0]
if isinstance(y, dict):
    import base64
    y = np.frombuffer(base64.b64decode(y["bdata"]), y["dtype"])
assert sorted(y) == [100, 700], y
''')

seed('c35-convergence', 'C35',
     [(C, '                tol=convergence,\n', '                tol=1e-6,\n')],
     'matching with refinement and another convergence limit',
     'the convergence limit passed has no effect',
     FIT + '''
import rascal.calibrator as rc
got = []
old = rc.minimize


def spy(*a, **kw):
    got.append(kw.get("tol"))
    return old(*a, **kw)


rc.minimize = spy
c = make()
c.match_peaks([4000.0, 4.0], refine=True, convergence=1e-3)
assert got == [1e-3], got
''')

seed('c35-labels-always-off', 'C35',
     [(P, '''        if label:
            for _w in''', '''        if log:
            for _w in''')],
     'plotting labelled lines on a linear scale',
     'the option label has no effect, log decides',
     '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from rascal.plotting import plot_calibration_lines
plot_calibration_lines(["Xe"], min_atlas_wavelength=8200.0,
                       max_atlas_wavelength=8300.0, label=True,
                       min_intensity=0.0, display=False)
assert len(plt.gca().texts) > 0
''')

seed('c35-weighting-of-the-calibrator', 'C35',
     [(P, '        weighted=weighted,\n    )',
       '        weighted=calibrator.candidate_weighted,\n    )')],
     'plotting the search space with weighted=False',
     'the option weighted has no effect',
     FIT + '''
import matplotlib
matplotlib.use("Agg")
c = make()
c.use_matplotlib()
c.hough_lines, c.hough_points = [(4.0, 4000.0)], np.zeros((1, 2))
c._generate_pairs()
c.candidates = [(peaks, lines, np.ones(len(peaks)))]
got = []
old = c._get_most_common_candidates


def spy(cand, top_n_candidate, weighted):
    got.append(weighted)
    return old(cand, top_n_candidate, weighted)


c._get_most_common_candidates = spy
c.plot_search_space(weighted=False, display=False)
assert got == [False], got
''')

seed('c36-tangent-other-sign', 'C36',
     [(C, '                intercept = wave - gradient * self.pixel_list\n',
       '                intercept = wave + gradient * self.pixel_list\n')],
     'a fit with hough_weight set',
     'the Hough density is read off at the wrong intercept, so the score '
     'ignores where the solution lies',
     FIT + '''
import rascal.calibrator as rc
seen = []
new = rc.interpolate.RectBivariateSpline


class Spy(new):
    def __call__(self, x, y, *a, **kw):
        seen.append((np.array(x), np.array(y)))
        return super().__call__(x, y, *a, **kw)


rc.interpolate.RectBivariateSpline = Spy
c = make()
c.set_ransac_properties(sample_size=4, top_n_candidate=3, hough_weight=1.0)
c.do_hough_transform()
c.fit(max_tries=20, fit_deg=2)
assert seen
for g, i in seen:
    wave = i + g * np.arange(len(g))
    assert np.allclose(np.diff(wave), (g[1:] + g[:-1]) / 2, atol=1e-3)
''')

seed('c36-density-off-centre', 'C36',
     [(C, '            ybin_size = (self.ht.yedges[1] - self.ht.yedges[0]) / 2.0\n',
       '            ybin_size = (self.ht.xedges[1] - self.ht.xedges[0]) / 2.0\n')],
     'a fit with hough_weight set',
     'the density is interpolated half a bin off along the intercepts',
     FIT + '''
import rascal.calibrator as rc
seen = []
new = rc.interpolate.RectBivariateSpline


class Spy(new):
    def __init__(self, x, y, z, *a, **kw):
        seen.append((np.array(x), np.array(y)))
        super().__init__(x, y, z, *a, **kw)


rc.interpolate.RectBivariateSpline = Spy
c = make()
c.set_ransac_properties(sample_size=4, top_n_candidate=3, hough_weight=1.0)
c.do_hough_transform()
c.fit(max_tries=20, fit_deg=2)
(x, y), = seen[:1]
for v, e in ((x, c.ht.xedges), (y, c.ht.yedges)):
    assert np.allclose(v, (np.array(e)[1:] + np.array(e)[:-1]) / 2)
''')

ADJ = FIT + '''
import rascal.calibrator as rc
FUN = []
old = rc.minimize


def spy(fun, x0, args=(), **kw):
    FUN.append(lambda d: fun(np.array(d, dtype="float"), *args))
    return old(fun, x0, args=args, **kw)


rc.minimize = spy


def score(shift, **kw):
    c = make()
    del FUN[:]
    c.match_peaks([4000.0, 4.0, 0.0], refine=True, n_delta=3,
                  robust_refit=False, **kw)
    return FUN[0](shift)


'''

seed('c36-adjust-any-step-up', 'C36',
     [(C, '''        if not np.all(
            np.diff(self.polyval(np.sort(self.pixel_list), fit_new)) > 0
        ):
            self.logger.info("not monotonic")''',
       '''        if not np.any(
            np.diff(self.polyval(np.sort(self.pixel_list), fit_new)) > 0
        ):
            self.logger.info("not monotonic")''')],
     'a refinement on its way over solutions that turn back inside the '
     'detector',
     'a solution that does not increase is scored and can win',
     ADJ + '''
assert np.isfinite(score([0.0, 0.0, 0.0], tolerance=10.0))
assert not np.isfinite(score([0.0, 0.0, -0.003], tolerance=4000.0))
''')

seed('c36-adjust-fraction-of-nothing', 'C36',
     [(C, '        if len(x_matched) < len(self.peaks) * min_frac:\n',
       '        if len(x_matched) < len(y_matched) * min_frac:\n')],
     'a refinement on its way over solutions that match few peaks well',
     'a shift that leaves most peaks without a match can win',
     ADJ + '''
# a slope at which the tolerance is kept at one end only
s = [0.0, -0.05, 0.0]
assert np.isfinite(score(s, tolerance=12.0, min_frac=0.0))
assert not np.isfinite(score(s, tolerance=12.0, min_frac=0.95))
''')

seed('c36-adjust-errors-cancel', 'C36',
     [(C, '''            np.sum((y_matched - self.polyval(x_matched, fit_new)) ** 2.0) / dof
''', '''            np.sum(y_matched - self.polyval(x_matched, fit_new)) ** 2.0 / dof
''')],
     'a refinement of a solution with errors of both signs',
     'errors of opposite signs cancel: a tilted solution scores as well as '
     'the right one',
     ADJ + '''
m = np.mean(peaks)
assert score([-0.01 * m, 0.01, 0.0], tolerance=20.0) > 1.0
''')
