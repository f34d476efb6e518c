C = 'calibrator.py'
INT = '''                if (fit_coeffs[0] < self.min_intercept) | (
                    fit_coeffs[0] > self.max_intercept
                ):
                    self.logger.debug("Intercept exceeds bounds.")
                    continue
'''
MONO = '''                if not np.all(
                    np.diff(
                        self.polyval(
                            np.arange(pix_min, pix_max, 1), fit_coeffs
                        )
                    )
                    > 0
                ):
'''
BEST = '''                    best_cost = cost
'''
UTIL = '''                    if n_inliers < self.minimum_peak_utilisation * len(
                        self.peaks
                    ):
'''
MM = '                    if n_inliers < self.minimum_matches:\n'
STORE = '''                    self.matched_peaks = list(copy.deepcopy(matched_peaks))
                    self.matched_atlas = list(copy.deepcopy(matched_atlas))
'''
ACC = '''                    # If the best fit is accepted, update the lists
                    best_cost = cost
                    best_inliers = n_inliers
                    best_p = coeffs
                    best_err = rms_residual
                    best_residual = residual
''' + STORE
RMS = '''                    if rms_residual < self.minimum_fit_error:
                        self.logger.debug(
                            "Fit error too small, " "{:1.2f}.".format(best_err)
                        )

                        continue
'''
EDITS = [
    ('10-intlow', 'C10', [(C, '(fit_coeffs[0] < self.min_intercept) | (\n                    fit_coeffs[0] > self.max_intercept\n                )', 'fit_coeffs[0] > self.max_intercept')]),
    ('10-intand', 'C10', [(C, '(fit_coeffs[0] < self.min_intercept) | (', '(fit_coeffs[0] < self.min_intercept) & (')]),
    ('10-intlast', 'C10', [(C, INT, INT.replace('fit_coeffs[0]', 'fit_coeffs[-1]'))]),
    ('10-nomono', 'C10', [(C, MONO, MONO.replace('if not np.all', 'if not np.any'))]),
    ('10-mono0', 'C10', [(C, MONO, MONO.replace('> 0', '>= 0'))]),
    ('10-monorange', 'C10', [(C, 'pix_min = peaks[0] - np.ptp(peaks) * 0.2', 'pix_min = peaks[0] + np.ptp(peaks) * 0.2')]),
    ('10-monorange2', 'C10', [(C, 'pix_max = peaks[-1] + np.ptp(peaks) * 0.2', 'pix_max = peaks[-1]')]),
    ('10-cost', 'C10', [(C, BEST, '')]),
    ('10-costrev', 'C10', [(C, 'if cost <= best_cost:', 'if best_cost <= cost:')]),
    ('10-costor', 'C10', [(C, 'if cost <= best_cost:', 'if cost <= best_cost or n_more:'), (C, '                # If this is potentially a new best fit', '                n_more = len(matched_x) > best_inliers\n                # If this is potentially a new best fit')]),
    ('10-util-all', 'C10', [(C, UTIL, UTIL.replace('self.peaks', 'peaks'))]),
    ('10-mm-err', 'C10', [(C, MM, MM.replace('n_inliers', 'len(err)'))]),
    ('10-mm-le', 'C10', [(C, MM, MM.replace('<', '<='))]),
    ('10-early', 'C10', [(C, STORE, ''), (C, '                    # Now we do a robust fit\n', STORE + '                    # Now we do a robust fit\n')]),
    ('10-earlycoef', 'C10', [(C, '                    best_p = coeffs\n', ''), (C, '                    # Get the residual of the fit\n', '                    best_p = coeffs\n                    # Get the residual of the fit\n')]),
    ('10-rms', 'C10', [(C, RMS, RMS.replace('rms_residual < self', 'best_err < self'))]),
    ('10-rmspass', 'C10', [(C, RMS, RMS.replace('                        continue\n', ''))]),
    ('10-mask', 'C10', [(C, 'mask = err < self.ransac_tolerance', 'mask = err <= self.ransac_tolerance')]),
    ('10-mask2', 'C10', [(C, 'mask = err < self.ransac_tolerance', 'mask = err < 3 * self.ransac_tolerance')]),
    ('10-clip', 'C10', [(C, 'err[err > self.ransac_tolerance] = self.ransac_tolerance', 'err[err > self.ransac_tolerance] = 0.0')]),
    ('10-deg', 'C10', [(C, 'if len(matched_peaks) <= self.fit_deg:', 'if len(matched_peaks) < self.fit_deg:')]),
    ('10-valid', 'C10', [(C, 'if best_inliers <= self.fit_deg + 1:', 'if best_inliers < self.fit_deg + 1:')]),
    ('10-matched', 'C10', [(C, 'n_inliers = sum(mask)', 'n_inliers = len(mask)')]),
    ('10-peaks', 'C10', [(C, 'matched_peaks = matched_x[mask]\n                    matched_atlas = matched_y[mask]', 'matched_peaks = matched_x\n                    matched_atlas = matched_y')]),
    ('10-exc', 'C10', [(C, '''                    except np.linalg.LinAlgError:
                        self.logger.warning(
                            "Linear algebra error in robust fit"
                        )
                        continue
''', '''                    except np.linalg.LinAlgError:
                        self.logger.warning(
                            "Linear algebra error in robust fit"
                        )
                        coeffs = fit_coeffs
'''), (C, RMS, '''                    if np.any(coeffs != fit_coeffs):
''' + RMS.replace('                    ', '                        '))]),
    ('10r-or', 'none', [(C, '(fit_coeffs[0] < self.min_intercept) | (\n                    fit_coeffs[0] > self.max_intercept\n                )', 'fit_coeffs[0] < self.min_intercept or fit_coeffs[0] > self.max_intercept')]),
    ('10r-notin', 'none', [(C, '(fit_coeffs[0] < self.min_intercept) | (\n                    fit_coeffs[0] > self.max_intercept\n                )', 'not (\n                    self.min_intercept <= fit_coeffs[0] <= self.max_intercept\n                )')]),
    ('10r-any', 'none', [(C, MONO, MONO.replace('if not np.all', 'if np.any').replace('> 0', '<= 0'))]),
    ('10r-minmono', 'none', [(C, MONO, '''                wl = self.polyval(np.arange(pix_min, pix_max, 1), fit_coeffs)

                if not np.all(wl[1:] > wl[:-1]):
''')]),
    ('10r-min', 'none', [(C, 'err[err > self.ransac_tolerance] = self.ransac_tolerance', 'err = np.minimum(err, self.ransac_tolerance)')]),
    ('10r-clip', 'none', [(C, 'err[err > self.ransac_tolerance] = self.ransac_tolerance', 'err = np.clip(err, None, self.ransac_tolerance)')]),
    ('10r-count', 'none', [(C, 'n_inliers = sum(mask)', 'n_inliers = int(np.count_nonzero(mask))')]),
    ('10r-sum1', 'none', [(C, 'n_inliers = sum(mask)', 'n_inliers = sum(1 for m in mask if m)')]),
    ('10r-sum2', 'none', [(C, 'n_inliers = sum(mask)', 'n_inliers = mask.sum()')]),
    ('10r-sum3', 'none', [(C, '                    n_inliers = sum(mask)\n', ''), (C, '                    matched_atlas = matched_y[mask]\n', '                    matched_atlas = matched_y[mask]\n                    n_inliers = matched_peaks.size\n')]),
    ('10r-sum4', 'none', [(C, '                    n_inliers = sum(mask)\n', ''), (C, '                    matched_atlas = matched_y[mask]\n', '                    matched_atlas = matched_y[mask]\n                    n_inliers = matched_peaks.shape[0]\n')]),
    ('10r-idx', 'none', [(C, 'mask = err < self.ransac_tolerance\n', 'mask = np.where(err < self.ransac_tolerance)[0]\n'), (C, 'n_inliers = sum(mask)', 'n_inliers = len(mask)')]),
    ('10r-keep', 'none', [(C, ACC, """                    best = (
                        cost,
                        n_inliers,
                        coeffs,
                        rms_residual,
                        residual,
                        list(copy.deepcopy(matched_peaks)),
                        list(copy.deepcopy(matched_atlas)),
                    )
                    best_cost, best_inliers, best_p, best_err = best[:4]
                    best_residual = best[4]
                    self.matched_peaks, self.matched_atlas = best[5:]
""")]),
    ('10r-len', 'none', [(C, '                    n_inliers = sum(mask)\n', ''), (C, '                    matched_atlas = matched_y[mask]\n', '                    matched_atlas = matched_y[mask]\n                    n_inliers = len(matched_peaks)\n')]),
    ('10r-helper', 'none', [(C, INT, '''                if not self._start_inside(fit_coeffs):
                    self.logger.debug("Intercept exceeds bounds.")
                    continue
'''), (C, '    def _adjust_polyfit(', '''    def _start_inside(self, coeff):
        if coeff[0] < self.min_intercept:
            return False
        if coeff[0] > self.max_intercept:
            return False
        return True

    def _adjust_polyfit(''')]),
    ('10r-invert', 'none', [(C, '                if cost <= best_cost:\n', '                if cost > best_cost:\n                    pass\n\n                else:\n')]),
    ('10r-gates', 'none', [(C, MM, '                    enough = n_inliers >= self.minimum_matches\n\n                    if not enough:\n')]),
    ('10r-max', 'none', [(C, UTIL, '''                    needed = self.minimum_peak_utilisation * len(self.peaks)

                    if needed > n_inliers:
''')]),
    ('10r-valid', 'none', [(C, '''        if best_inliers <= self.fit_deg + 1:
            valid_solution = False

        else:
            valid_solution = True
''', '''        valid_solution = best_inliers > self.fit_deg + 1
''')]),
    ('10r-tuple', 'none', [(C, ACC, '''                    # If the best fit is accepted, update the lists
                    best_cost, best_inliers = cost, n_inliers
                    best_p, best_err, best_residual = (
                        coeffs,
                        rms_residual,
                        residual,
                    )
                    self.matched_atlas = list(copy.deepcopy(matched_atlas))
                    self.matched_peaks = list(copy.deepcopy(matched_peaks))
''')]),
    ('10r-ptp', 'none', [(C, '''                pix_min = peaks[0] - np.ptp(peaks) * 0.2
                pix_max = peaks[-1] + np.ptp(peaks) * 0.2
''', '''                margin = 0.2 * (np.max(peaks) - np.min(peaks))
                pix_min = np.min(peaks) - margin
                pix_max = np.max(peaks) + margin
''')]),
    ('10r-all', 'none', [(C, MM, '''                    if not all(
                        [
                            n_inliers >= self.minimum_matches,
                            n_inliers
                            >= self.minimum_peak_utilisation
                            * len(self.peaks),
                        ]
                    ):
                        continue

                    if n_inliers < self.minimum_matches:
''')]),
    ('10r-accept', 'none', [(C, STORE, '''                    self._keep(matched_peaks, matched_atlas)
'''), (C, '    def _adjust_polyfit(', '''    def _keep(self, peaks, lines):
        self.matched_peaks = list(copy.deepcopy(peaks))
        self.matched_atlas = list(copy.deepcopy(lines))

    def _adjust_polyfit(''')]),
 ('10e-min', 'C10', [(C, 'if n_inliers < self.minimum_matches:', 'if n_inliers <= self.minimum_matches:')]),
 ('10ex-min', 'none', [(C, 'if n_inliers < self.minimum_matches:', 'if not n_inliers >= self.minimum_matches:')]),
]
