C = 'calibrator.py'
ACC = '''                    # If the best fit is accepted, update the lists
                    best_cost = cost
                    best_inliers = n_inliers
                    best_p = coeffs
                    best_err = rms_residual
                    best_residual = residual
'''
STORE = '''                    self.matched_peaks = list(copy.deepcopy(matched_peaks))
                    self.matched_atlas = list(copy.deepcopy(matched_atlas))
'''
CLIP = '''                    residual[
                        np.abs(residual) > self.ransac_tolerance
                    ] = self.ransac_tolerance

                    rms_residual = np.sqrt(np.mean(residual**2))
'''
RESID = '''                    residual = (
                        self.polyval(matched_peaks, coeffs) - matched_atlas
                    )
'''
UTIL = '''        peak_utilisation = n_inliers / len(self.peaks)
        atlas_utilisation = n_inliers / len(self.atlas)
'''
FSTORE = '''        self.fit_coeff = fit_coeff
        self.rms = rms
        self.residual = residual
        self.peak_utilisation = peak_utilisation
        self.atlas_utilisation = atlas_utilisation
'''
FRET = '''            self.matched_peaks,
            self.matched_atlas,
            self.rms,
            self.residual,
'''
MSTORE = '''        self.fit_coeff = fit_coeff
        self.matched_peaks = matched_peaks
        self.matched_atlas = best_atlas
        self.residuals = residuals
        self.rms = np.sqrt(
            np.nansum(self.residuals**2.0) / len(self.residuals)
        )
        self.peak_utilisation = len(self.matched_peaks) / len(self.peaks)
        self.atlas_utilisation = len(self.matched_atlas) / len(self.atlas)
'''
MRES = '''        # The residuals are those of the solution to be returned
        residuals = best_atlas - self.polyval(matched_peaks, fit_coeff)
'''
ROB = '''        if robust_refit:
            fit_coeff_robust = models.robust_polyfit(
                matched_peaks, best_atlas, fit_deg
            )

            if np.any(np.isnan(fit_coeff_robust)):
                self.logger.warning(
                    "robust_polyfit() returns None. "
                    "Input solution is returned."
                )

            else:
                fit_coeff = fit_coeff_robust

'''
RSTORE = '''        self.fit_coeff = fit_coeff_new
        self.matched_peaks = copy.deepcopy(matched_peaks)
        self.matched_atlas = copy.deepcopy(matched_atlas)
        self.residuals = y - self.polyval(x, fit_coeff_new)
        self.rms = np.sqrt(
            np.nansum(self.residuals**2.0) / len(self.residuals)
        )
'''
BEST = '''            if err < best_err:
                best_atlas = matched_atlas
                best_err = err
'''
EDITS = [
 # ---- fit
 ('11-resid-trial', 'C11', [(C, RESID, RESID.replace('coeffs)', 'fit_coeffs)'))]),
 ('11-resid-all', 'C11', [(C, RESID, RESID.replace('- matched_atlas', '- matched_y[:len(matched_peaks)]'))]),
 ('11-rms-before-clip', 'C11', [(C, CLIP, '''                    rms_residual = np.sqrt(np.mean(residual**2))
                    residual = np.clip(residual, -self.ransac_tolerance, self.ransac_tolerance)
''')]),
 ('11-rms-median', 'C11', [(C, CLIP, CLIP.replace('np.mean(residual**2)', 'np.median(residual**2)'))]),
 ('11-rms-mad', 'C11', [(C, CLIP, CLIP.replace('np.sqrt(np.mean(residual**2))', 'np.mean(np.abs(residual))'))]),
 ('11-rms-std', 'C11', [(C, CLIP, CLIP.replace('np.sqrt(np.mean(residual**2))', 'np.std(residual)'))]),
 ('11-rms-err', 'C11', [(C, CLIP, CLIP.replace('np.mean(residual**2)', 'np.mean(err**2)'))]),
 ('11-rms-errmask', 'C11', [(C, CLIP, CLIP.replace('np.mean(residual**2)', 'np.mean(err[mask]**2)'))]),
 ('11-rms-dof', 'C11', [(C, CLIP, CLIP.replace('np.mean(residual**2)', 'np.sum(residual**2) / (len(residual) - self.fit_deg - 1)'))]),
 ('11-trial-coeff', 'C11', [(C, ACC, ACC.replace('best_p = coeffs', 'best_p = fit_coeffs'))]),
 ('11-no-resid', 'C11', [(C, ACC, ACC.replace('                    best_residual = residual\n', ''))]),
 ('11-no-err', 'C11', [(C, ACC, ACC.replace('                    best_err = rms_residual\n', ''))]),
 ('11-best-sep', 'C11', [(C, ACC, ACC.replace('                    best_residual = residual\n', '                    if rms_residual < best_err:\n                        best_residual = residual\n').replace('best_err = rms_residual\n                    if', 'if').replace('                        best_residual = residual\n', '                        best_residual = residual\n                    best_err = rms_residual\n'))]),
 ('11-inliers-early', 'C11', [(C, ACC, ACC.replace('                    best_inliers = n_inliers\n', '')), (C, '''                    n_inliers = sum(mask)
''', '''                    n_inliers = sum(mask)
                    best_inliers = n_inliers
''')]),
 ('11-store-early', 'C11', [(C, STORE, ''), (C, '''                    # Now we do a robust fit
''', STORE + '''                    # Now we do a robust fit
''')]),
 ('11-inliers-max', 'C11', [(C, ACC, ACC.replace('best_inliers = n_inliers', 'best_inliers = max(best_inliers, n_inliers)'))]),
 ('11-util-swap', 'C11', [(C, UTIL, UTIL.replace('len(self.peaks)', 'len(self.X)').replace('len(self.atlas)', 'len(self.peaks)').replace('self.X', 'self.atlas'))]),
 ('11-util-pix', 'C11', [(C, UTIL, UTIL.replace('len(self.peaks)', 'len(self.pixel_list)'))]),
 ('11-util-cand', 'C11', [(C, UTIL, UTIL.replace('len(self.atlas)', 'self.num_pix'))]),
 ('11-fstore-rms', 'C11', [(C, FSTORE, FSTORE.replace('        self.rms = rms\n', '        self.rms = round(rms, 2)\n').replace('self.rms', 'self.rms')), (C, '            self.rms,\n            self.residual,\n', '            rms,\n            self.residual,\n')]),
 ('11-fret-swap', 'C11', [(C, FRET, FRET.replace('            self.rms,\n            self.residual,\n', '            self.residual,\n            self.rms,\n'))]),
 ('11-fret-lists', 'C11', [(C, FRET, FRET.replace('            self.matched_peaks,\n            self.matched_atlas,\n', '            self.matched_atlas,\n            self.matched_peaks,\n'))]),
 ('11-fret-old', 'C11', [(C, FSTORE, FSTORE.replace('        self.residual = residual\n', ''))]),
 ('11-rms-after', 'C11', [(C, FSTORE, FSTORE.replace('self.rms = rms', 'self.rms = rms * 10.0'))]),
 ('11-sort-lists', 'C11', [(C, FSTORE, FSTORE + '        self.matched_peaks = sorted(self.matched_peaks)\n        self.matched_atlas = sorted(self.matched_atlas)[::-1]\n')]),
 # ---- match_peaks
 ('11m-res-before', 'C11', [(C, ROB, MRES + ROB), (C, ROB + MRES, ROB)]),
 ('11m-res-input', 'C11', [(C, MRES, MRES.replace('fit_coeff)', 'candidate_coeff)'))]),
 ('11m-res-last', 'C11', [(C, MRES, MRES.replace('best_atlas -', 'matched_atlas -'))]),
 ('11m-rms-inc', 'C11', [(C, MSTORE, MSTORE.replace('len(self.residuals)', 'len(self.peaks)', 1))]),
 ('11m-rms-nosq', 'C11', [(C, MSTORE, MSTORE.replace('np.nansum(self.residuals**2.0)', 'np.nansum(np.abs(self.residuals))'))]),
 ('11m-util-all', 'C11', [(C, MSTORE, MSTORE.replace('len(self.matched_atlas) / len(self.atlas)', 'len(candidates) / len(self.atlas)'))]),
 ('11m-util-swap', 'C11', [(C, MSTORE, MSTORE.replace('/ len(self.atlas)', '/ len(self.peaks)'))]),
 ('11m-util-unique', 'C11', [(C, MSTORE, MSTORE.replace('len(self.matched_atlas) / len(self.atlas)', 'len(np.unique(self.matched_atlas)) / len(self.atlas)'))]),
 ('11m-atlas-last', 'C11', [(C, MSTORE, MSTORE.replace('self.matched_atlas = best_atlas', 'self.matched_atlas = matched_atlas'))]),
 ('11m-coeff-nostore', 'C11', [(C, MSTORE, MSTORE.replace('        self.fit_coeff = fit_coeff\n', ''))]),
 ('11m-coeff-only-robust', 'C11', [(C, MSTORE, MSTORE.replace('        self.fit_coeff = fit_coeff\n', '        if robust_refit:\n            self.fit_coeff = fit_coeff\n'))]),
 ('11m-early-store', 'C11', [(C, '''                return fit_coeff, None, None, None, None, None, None
''', '''                self.matched_peaks = []
                return fit_coeff, None, None, None, None, None, None
''')]),
 ('11m-clip-tol', 'C11', [(C, MSTORE, MSTORE.replace('self.residuals = residuals', 'self.residuals = np.abs(residuals)'))]),
 # ---- manual refit
 ('11r-x0', 'C11', [(C, RSTORE, RSTORE.replace('self.polyval(x, fit_coeff_new)', 'self.polyval(x, x0)'))]),
 ('11r-stored-peaks', 'C11', [(C, RSTORE, '        res_x = np.asarray(self.matched_peaks)\n' + RSTORE.replace('self.polyval(x, fit_coeff_new)', 'self.polyval(res_x, fit_coeff_new)'))]),
 ('11r-nostore', 'C11', [(C, RSTORE, RSTORE.replace('        self.matched_atlas = copy.deepcopy(matched_atlas)\n', '') )]),
 ('11r-rms-dof', 'C11', [(C, RSTORE, RSTORE.replace('len(self.residuals)', '(len(self.residuals) - degree)'))]),
 ('11r-rms-old', 'C11', [(C, RSTORE, RSTORE.replace('''        self.residuals = y - self.polyval(x, fit_coeff_new)
''', '') + '        self.residuals = y - self.polyval(x, fit_coeff_new)\n')]),
 # ---- refactorings
 ('11x-rms-helper', 'none', [(C, RSTORE, RSTORE.replace('''self.rms = np.sqrt(
            np.nansum(self.residuals**2.0) / len(self.residuals)
        )''', 'self.rms = _root_mean_square(self.residuals)')), (C, 'class Calibrator:', 'def _root_mean_square(values):\n    values = np.asarray(values)\n    return np.sqrt(np.nansum(values**2.0) / len(values))\n\n\nclass Calibrator:')]),
 ('11x-rms-forms', 'none', [(C, RSTORE, RSTORE.replace('''np.sqrt(
            np.nansum(self.residuals**2.0) / len(self.residuals)
        )''', 'np.sqrt(np.nanmean(self.residuals**2))')), (C, MSTORE, MSTORE.replace('''np.sqrt(
            np.nansum(self.residuals**2.0) / len(self.residuals)
        )''', '(np.nansum(self.residuals * self.residuals) / len(self.residuals)) ** 0.5'))]),
 ('11x-rms-square', 'none', [(C, CLIP, CLIP.replace('residual**2', 'np.square(residual)'))]),
 ('11x-rms-dot', 'none', [(C, CLIP, CLIP.replace('np.mean(residual**2)', 'np.dot(residual, residual) / len(residual)'))]),
 ('11x-rms-size', 'none', [(C, CLIP, CLIP.replace('np.mean(residual**2)', 'np.sum(residual**2) / residual.size'))]),
 ('11x-clip', 'none', [(C, CLIP, '''                    residual = np.where(np.abs(residual) > self.ransac_tolerance, self.ransac_tolerance, residual)
                    rms_residual = np.sqrt(np.mean(residual**2))
''')]),
 ('11x-clip-min', 'none', [(C, CLIP, '''                    outlying = np.abs(residual) > self.ransac_tolerance
                    residual[outlying] = self.ransac_tolerance
                    rms_residual = np.sqrt(np.mean(np.abs(residual)**2))
''')]),
 ('11x-local-ret', 'none', [(C, '''            self.rms,
            self.residual,
            self.peak_utilisation,
            self.atlas_utilisation,
''', '''            rms,
            residual,
            peak_utilisation,
            atlas_utilisation,
''')]),
 ('11x-util-len', 'none', [(C, UTIL, UTIL.replace('n_inliers', 'len(self.matched_peaks)'))]),
 ('11x-util-fields', 'none', [(C, UTIL, '        n_peaks, n_lines = len(self.peaks), len(self.atlas.get_lines())\n        peak_utilisation = n_inliers / n_peaks\n        atlas_utilisation = n_inliers / n_lines\n')]),
 ('11x-branches', 'none', [(C, ROB + MRES, '''        if robust_refit:
            fit_coeff_robust = models.robust_polyfit(
                matched_peaks, best_atlas, fit_deg
            )

            if not np.any(np.isnan(fit_coeff_robust)):
                fit_coeff = fit_coeff_robust
                residuals = best_atlas - self.polyval(matched_peaks, fit_coeff)
            else:
                self.logger.warning("robust")
                residuals = best_atlas - self.polyval(matched_peaks, fit_coeff)
        else:
            residuals = best_atlas - self.polyval(matched_peaks, fit_coeff)

''')]),
 ('11x-fitted', 'none', [(C, MRES, '        fitted = self.polyval(matched_peaks, fit_coeff)\n        residuals = np.subtract(best_atlas, fitted)\n')]),
 ('11x-mret', 'none', [(C, '''        return (
            self.fit_coeff,
            self.matched_peaks,
            self.matched_atlas,
            self.rms,
            self.residuals,
        )
''', '''        result = (fit_coeff_new, self.matched_peaks, self.matched_atlas)
        return result + (self.rms, self.residuals)
''')]),
 ('11x-publish', 'none', [(C, MSTORE, '''        self._publish(fit_coeff, matched_peaks, best_atlas, residuals)
'''), (C, '    def get_pix_wave_pairs(self):', '''    def _publish(self, coeff, peaks, lines, residuals):
        self.fit_coeff = coeff
        self.matched_peaks, self.matched_atlas = peaks, lines
        self.residuals = residuals
        self.rms = np.sqrt(np.nansum(residuals**2.0) / len(residuals))
        self.peak_utilisation = len(peaks) / len(self.peaks)
        self.atlas_utilisation = len(lines) / len(self.atlas)

    def get_pix_wave_pairs(self):''')]),
 ('11x-accept-tuple', 'none', [(C, ACC, '''                    best_cost, best_inliers = cost, n_inliers
                    best_p, best_err, best_residual = coeffs, rms_residual, residual
''')]),
 ('11x-best-dict', 'none', [(C, ACC, ACC.replace('best_residual = residual', 'best_residual = residual.copy()').replace('best_p = coeffs', 'best_p = np.array(coeffs)'))]),
 ('11x-residual-loop', 'none', [(C, RESID, '''                    residual = np.array([
                        self.polyval(p, coeffs) - a
                        for p, a in zip(matched_peaks, matched_atlas)
                    ])
''')]),
 ('11x-enum-best', 'none', [(C, BEST, '''            if not err >= best_err:
                best_atlas, best_err = matched_atlas, err
''')]),
]
