C, H, P, U, A, S = ('calibrator.py', 'houghtransform.py', 'plotting.py',
                    'util.py', 'atlas.py', 'synthetic.py')
EDITS = [
# --- bugs
('14-b-product', 'C14', [(C, 'itertools.product(self.peaks, self.atlas.get_lines())', 'itertools.product(self.atlas.get_lines(), self.peaks)')]),
('14-b-hull', 'C14', [(C, '(0, self.max_intercept + self.candidate_tolerance),\n', '(self.max_intercept + self.candidate_tolerance, 0),\n')]),
('14-b-lincol', 'C14', [(C, 'predicted = gradient * self.pairs[:, 0] + intercept\n            actual = self.pairs[:, 1]', 'predicted = gradient * self.pairs[:, 1] + intercept\n            actual = self.pairs[:, 0]')]),
('14-b-linactual', 'C14', [(C, '            actual = self.pairs[:, 1]\n            diff = np.abs(predicted - actual)', '            actual = self.pairs[:, 0]\n            diff = np.abs(predicted - actual)')]),
('14-b-cands', 'C14', [(C, '                (self.pairs[:, 0][mask], actual[mask], weight)\n', '                (actual[mask], self.pairs[:, 0][mask], weight)\n')]),
('14-b-candread', 'C14', [(C, '            peaks.extend(candidate[0])\n            wavelengths.extend(candidate[1])', '            peaks.extend(candidate[1])\n            wavelengths.extend(candidate[0])')]),
('14-b-pairsgen', 'C14', [(C, '                self.pairs[:, 0], self.pairs[:, 1]\n            )\n        else:', '                self.pairs[:, 1], self.pairs[:, 0]\n            )\n        else:')]),
('14-b-constraints', 'C14', [(C, '            self.min_slope,\n            self.max_slope,\n            self.min_intercept,\n            self.max_intercept,\n        )', '            self.min_intercept,\n            self.max_intercept,\n            self.min_slope,\n            self.max_slope,\n        )')]),
('14-b-polyguess', 'C14', [(C, 'predicted = self.polyval(self.pairs[:, 0], self.fit_coeff) + d', 'predicted = self.polyval(self.pairs[:, 1], self.fit_coeff) + d')]),
('14-b-polycand', 'C14', [(C, '                    [self.pairs[:, 0][mask], actual[mask], weight]\n', '                    [actual[mask], self.pairs[:, 0][mask], weight]\n')]),
('14-b-houghcols', 'C14', [(H, '        gradients = gradients[mask]\n\n        # Create an array of Hough Points\n        self.hough_points = np.column_stack((gradients, intercepts))\n\n    def generate', '        gradients = gradients[mask]\n\n        # Create an array of Hough Points\n        self.hough_points = np.column_stack((intercepts, gradients))\n\n    def generate')]),
('14-b-bfmask', 'C14', [(H, '            (gradients > self.min_slope)\n            & (gradients < self.max_slope)\n            & (intercepts > self.min_intercept)', '            (intercepts > self.min_slope)\n            & (gradients < self.max_slope)\n            & (gradients > self.min_intercept)')]),
('14-b-bfgrad', 'C14', [(H, '(y[i + 1 :] - y[i]) / (x[i + 1 :] - x[i])', '(x[i + 1 :] - x[i]) / (y[i + 1 :] - y[i])')]),
('14-b-bfint', 'C14', [(H, 'intercept_tmp = y[i + 1 :] - gradient_tmp * x[i + 1 :]', 'intercept_tmp = x[i + 1 :] - gradient_tmp * y[i + 1 :]')]),
('14-b-outer', 'C14', [(H, 'np.concatenate(y - np.outer(slopes, x))', 'np.concatenate(x - np.outer(slopes, y))')]),
('14-b-hist', 'C14', [(H, '            self.hough_points[:, 0],\n            self.hough_points[:, 1],\n            bins=(xbins, ybins),', '            self.hough_points[:, 1],\n            self.hough_points[:, 0],\n            bins=(xbins, ybins),')]),
('14-b-edges', 'C14', [(H, 'self.hist, self.xedges, self.yedges = np', 'self.hist, self.yedges, self.xedges = np')]),
('14-b-binwidth', 'C14', [(H, 'self.xedges[b[0]] + xbin_width', 'self.xedges[b[0]] + ybin_width')]),
('14-b-lineorder', 'C14', [(H, '                    self.xedges[b[0]] + xbin_width,\n                    self.yedges[b[1]] + ybin_width,\n', '                    self.yedges[b[1]] + ybin_width,\n                    self.xedges[b[0]] + xbin_width,\n')]),
('14-b-loadslot', 'C15', [(H, '            self.min_slope = float(input_npy[4][0])\n            self.max_slope = float(input_npy[5][0])\n            self.min_intercept = float(input_npy[6][0])\n            self.max_intercept = float(input_npy[7][0])', '            self.min_slope = float(input_npy[6][0])\n            self.max_slope = float(input_npy[7][0])\n            self.min_intercept = float(input_npy[4][0])\n            self.max_intercept = float(input_npy[5][0])')]),
('14-b-tolpix', 'C14', [(C, '            diff_abs = np.abs(diff) < tolerance\n', '            diff_abs = np.abs(p - x) < tolerance\n')]),
('14-b-adjx', 'C14', [(C, '                x_matched.append(p)\n                y_matched.append(atlas_lines[idx])', '                x_matched.append(atlas_lines[idx])\n                y_matched.append(p)')]),
('14-b-fitswap', 'C14', [(C, '            candidate_coeff = self.polyfit(\n                matched_peaks, matched_atlas, fit_deg\n            )', '            candidate_coeff = self.polyfit(\n                matched_atlas, matched_peaks, fit_deg\n            )')]),
('14-b-robswap', 'C14', [(C, '                matched_peaks, best_atlas, fit_deg\n            )\n\n            if np.any(np.isnan(fit_coeff_robust))', '                best_atlas, matched_peaks, fit_deg\n            )\n\n            if np.any(np.isnan(fit_coeff_robust))')]),
('14-b-residpix', 'C14', [(C, 'residuals = best_atlas - self.polyval(matched_peaks, fit_coeff)', 'residuals = matched_peaks - self.polyval(matched_peaks, fit_coeff)')]),
('14-b-storeswap', 'C14', [(C, '        self.matched_peaks = matched_peaks\n        self.matched_atlas = best_atlas', '        self.matched_peaks = best_atlas\n        self.matched_atlas = matched_peaks')]),
('14-b-fitret', 'C14', [(C, '            self.fit_coeff,\n            self.matched_peaks,\n            self.matched_atlas,\n            self.rms,\n            self.residual,\n', '            self.fit_coeff,\n            self.matched_atlas,\n            self.matched_peaks,\n            self.rms,\n            self.residual,\n')]),
('14-b-getpairs', 'C14', [(C, 'pw_pairs.append((i, p, w))', 'pw_pairs.append((i, w, p))')]),
('14-b-addpos', 'C14', [(C, 'np.sum(np.asarray(self.matched_peaks) < pix)', 'np.sum(np.asarray(self.matched_atlas) < pix)')]),
('14-b-addswap', 'C14', [(C, 'matched_peaks = np.insert(self.matched_peaks, arg, pix)\n        matched_atlas = np.insert(self.matched_atlas, arg, wave)', 'matched_peaks = np.insert(self.matched_peaks, arg, wave)\n        matched_atlas = np.insert(self.matched_atlas, arg, pix)')]),
('14-b-refit', 'C14', [(C, 'fit_coeff_new = models.robust_polyfit(x, y, degree, x0)', 'fit_coeff_new = models.robust_polyfit(y, x, degree, x0)')]),
('14-b-refitres', 'C14', [(C, 'self.residuals = y - self.polyval(x, fit_coeff_new)', 'self.residuals = x - self.polyval(y, fit_coeff_new)')]),
('14-b-rmstol', 'C14', [(C, 'if rms > self.fit_tolerance:', 'if rms > self.peaks.max():')]),
('14-b-bijerr', 'C14', [(C, 'errs = np.abs(fit - candidates[peak])', 'errs = np.abs(peak - candidates[peak])')]),
('14-b-bijcross', 'C14', [(C, '            matched_x.append(peak)\n            matched_y.append(candidates[peak][idx])', '            matched_y.append(peak)\n            matched_x.append(candidates[peak][idx])')]),
('14-b-kelvin1', 'C14', [(U, '    return np.array(wavelengths) / edlen_refraction(\n        wavelengths, t, pressure,', '    return np.array(wavelengths) / edlen_refraction(\n        wavelengths, temperature, pressure,')]),
('14-b-vapK', 'C14', [(U, '    vapour_pressure = get_vapour_pressure(t)\n    vapour_partial_pressure = get_vapour_partial_pressure(\n        relative_humidity, vapour_pressure\n    )\n    return np.array(wavelengths) /', '    vapour_pressure = get_vapour_pressure(temperature)\n    vapour_partial_pressure = get_vapour_partial_pressure(\n        relative_humidity, vapour_pressure\n    )\n    return np.array(wavelengths) /')]),
('14-b-tpswap', 'C14', [(U, '        wavelengths, t, pressure, vapour_partial_pressure\n    )\n\n\ndef air', '        wavelengths, pressure, t, vapour_partial_pressure\n    )\n\n\ndef air')]),
('14-b-fw', 'C14', [(U, 'wavelengths = lines[:, 1].astype(np.float64)', 'wavelengths = lines[:, 2].astype(np.float64)')]),
('14-b-fi', 'C14', [(U, 'intensity = float(line[2])', 'intensity = float(line[1])')]),
('14-b-mpl', 'C14', [(P, '        plt.scatter(\n            candidate_peak,\n            candidate_arc,\n', '        plt.scatter(\n            candidate_arc,\n            candidate_peak,\n')]),
('14-b-plotly', 'C14', [(P, '                x=calibrator.pairs[:, 0],\n                y=calibrator.pairs[:, 1],\n', '                x=calibrator.pairs[:, 1],\n                y=calibrator.pairs[:, 0],\n')]),
('14-b-xlim', 'C14', [(P, 'plt.xlim(0, calibrator.pixel_list.max())\n        plt.ylim(', 'plt.ylim(0, calibrator.pixel_list.max())\n        plt.xlim(')]),
('14-b-vlinespk', 'C14', [(P, '''            ax1.vlines(
                calibrator.polyval(calibrator.peaks, fit_coeff),
''', '''            ax1.vlines(
                calibrator.peaks,
''')]),
('14-b-solplot', 'C14', [(P, 'ax3.plot(wave, calibrator.pixel_list, color', 'ax3.plot(calibrator.pixel_list, wave, color')]),
('14-b-resx', 'C14', [(P, '''        ax2.scatter(
            calibrator.polyval(fitted_peaks, fit_coeff),
''', '''        ax2.scatter(
            fitted_peaks,
''')]),
('14-b-label', 'C14', [(P, 'plt.xlabel("Pixel")\n        plt.ylabel("Wavelength / A")', 'plt.xlabel("Wavelength / A")\n        plt.ylabel("Pixel")')]),
('14-b-peakval', 'C14', [(P, 'calibrator.polyval(calibrator.peaks, fit_coeff),\n                color="C4"', 'calibrator.polyval(calibrator.atlas.get_lines(), fit_coeff),\n                color="C4"')]),
('14-b-arcx', 'C14', [(P, 'plt.xlim(0, max(calibrator.peaks))', 'plt.xlim(0, max(calibrator.atlas.get_lines()))')]),
('14-b-diffp', 'C14', [(P, 'diff = calibrator.atlas.get_lines() - x\n            idx = np.argmin(np.abs(diff))\n            all_diff.append(diff[idx])\n\n            calibrator.logger.info("Peak at: {} A".format(x))\n\n            fitted_peaks.append(p)\n            fitted_diff.append(diff[idx])\n            calibrator.logger.info(\n', 'diff = calibrator.atlas.get_lines() - p\n            idx = np.argmin(np.abs(diff))\n            all_diff.append(diff[idx])\n\n            calibrator.logger.info("Peak at: {} A".format(x))\n\n            fitted_peaks.append(p)\n            fitted_diff.append(diff[idx])\n            calibrator.logger.info(\n')]),
('14-b-getint', 'C14', [(A, 'return [line.intensity for line in self.atlas_lines]', 'return [line.wavelength for line in self.atlas_lines]')]),
('14-b-getlines', 'C14', [(A, 'return [line.wavelength for line in self.atlas_lines]', 'return [line.intensity for line in self.atlas_lines]')]),
('14-b-synth', 'C14', [(S, 'return pixels, wavelengths', 'return wavelengths, pixels')]),
# --- refactorings
('14-r-pairloop', 'none', [(C, '''        pairs = [
            pair
            for pair in itertools.product(self.peaks, self.atlas.get_lines())
        ]
''', '''        pairs = []
        lines = self.atlas.get_lines()
        for p in self.peaks:
            for w in lines:
                pairs.append((p, w))
''')]),
('14-r-lin', 'none', [(C, '            gradient, intercept = line\n\n            predicted = gradient * self.pairs[:, 0] + intercept\n            actual = self.pairs[:, 1]\n            diff = np.abs(predicted - actual)', '            pix, actual = self.pairs.T\n            predicted = line[1] + pix * line[0]\n            diff = np.abs(actual - predicted)')]),
('14-r-kw', 'none', [(C, '            self.min_slope,\n            self.max_slope,\n            self.min_intercept,\n            self.max_intercept,\n        )', '            min_intercept=self.min_intercept,\n            max_intercept=self.max_intercept,\n            min_slope=self.min_slope,\n            max_slope=self.max_slope,\n        )')]),
('14-r-vstack', 'none', [(H, 'np.column_stack((gradients, intercepts))', 'np.vstack([gradients, intercepts]).T')]),
('14-r-lines', 'none', [(H, '''        lines = []

        for b in self.hist_sorted_arg:
            lines.append(
                (
                    self.xedges[b[0]] + xbin_width,
                    self.yedges[b[1]] + ybin_width,
                )
            )

        self.hough_lines = lines
''', '''        xc = self.xedges[:-1] + xbin_width
        yc = self.yedges[:-1] + ybin_width
        self.hough_lines = [(xc[i], yc[j]) for i, j in self.hist_sorted_arg]
''')]),
('14-r-t', 'none', [(U, '    # Convert to celcius\n    t = temperature - 273.15\n\n    vapour', '    # Convert to celcius\n    kelvin = 273.15\n    t = -kelvin + temperature\n\n    vapour')]),
('14-r-bij', 'none', [(C, '''            # Get closest match for this peak
            errs = np.abs(fit - candidates[peak])
            idx = np.argmin(errs)
''', '''            # Get closest match for this peak
            near = np.asarray(candidates[peak])
            errs = abs(near - fit)
            idx = errs.argmin()
''')]),
('14-r-res', 'none', [(C, 'residuals = best_atlas - self.polyval(matched_peaks, fit_coeff)', 'model = self.polyval(matched_peaks, fit_coeff)\n        residuals = -(model - best_atlas)')]),
('14-r-helper', 'none', [(P, '''        plt.scatter(
            candidate_peak,
            candidate_arc,
            color="C2",
            label="Best Candidate Pairs",
        )
''', '''        def dots(px, wl, **kwargs):
            plt.scatter(px, wl, **kwargs)

        dots(candidate_peak, candidate_arc, color="C2", label="Best Candidate Pairs")
''')]),
('14-r-axis', 'none', [(P, 'plt.xlim(0, calibrator.pixel_list.max())\n        plt.ylim(', 'top = np.max(calibrator.pixel_list)\n        plt.xlim(left=0, right=top)\n        plt.ylim(')]),
('14-r-diffm', 'none', [(P, 'diff = calibrator.atlas.get_lines() - x\n            idx = np.argmin(np.abs(diff))\n            all_diff.append(diff[idx])\n\n            calibrator.logger.info("Peak at: {} A".format(x))\n\n            fitted_peaks.append(p)\n            fitted_diff.append(diff[idx])\n            calibrator.logger.info(\n', 'lines = np.array(calibrator.atlas.get_lines())\n            diff = lines - x\n            idx = np.abs(diff).argmin()\n            all_diff.append(diff[idx])\n\n            calibrator.logger.info("Peak at: {} A".format(x))\n\n            fitted_peaks.append(p)\n            fitted_diff.append(diff[idx])\n            calibrator.logger.info(\n')]),
('14-r-fit', 'none', [(C, '            candidate_coeff = self.polyfit(\n                matched_peaks, matched_atlas, fit_deg\n            )\n', '            candidate_coeff = self.polyfit(\n                x=matched_peaks, y=matched_atlas, deg=fit_deg\n            )\n')]),
('14-r-outer', 'none', [(H, 'np.concatenate(y - np.outer(slopes, x))', '(np.asarray(y)[None, :] - slopes[:, None] * np.asarray(x)[None, :]).ravel()')]),
('14-r-outer2', 'none', [(H, 'np.concatenate(np.column_stack([slopes] * len(x)))', 'np.repeat(slopes, len(x))')]),
('14-r-dictplot', 'none', [(P, 'ax3.scatter(\n            calibrator.polyval(fitted_peaks, fit_coeff),\n            fitted_peaks,', 'ax3.scatter(\n            x=calibrator.polyval(fitted_peaks, fit_coeff),\n            y=fitted_peaks,')]),
]
