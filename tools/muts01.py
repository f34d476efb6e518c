A = 'atlas.py'
U = 'util.py'
C = 'calibrator.py'
P = 'plotting.py'
H = 'houghtransform.py'
S = 'synthetic.py'
M = 'models.py'
EDITS = [
# ---- C01 bugs
('01-b-nocopy', 'C01', [(C, 'self.peaks = copy.deepcopy(peaks)', 'self.peaks = np.asarray(peaks)')]),
('01-b-spec', 'C01', [(C, 'self.spectrum = copy.deepcopy(spectrum)', 'self.spectrum = spectrum if isinstance(spectrum, np.ndarray) else copy.deepcopy(spectrum)')]),
('01-b-shallow', 'C01', [(C, 'self.peaks = copy.deepcopy(peaks)', 'self.peaks = peaks if len(peaks) > 0 else copy.deepcopy(peaks)')]),
('01-b-brute', 'C01', [(H, '        idx_sort = np.argsort(x)\n        x = x[idx_sort]\n        y = y[idx_sort]\n', '        idx_sort = np.argsort(x)\n        y[:] = y[idx_sort]\n        x.sort()\n')]),
('01-b-sep', 'C01', [(U, '    left_dists = np.zeros_like(wavelengths)', '    wavelengths = np.asarray(wavelengths)\n    wavelengths.sort()\n\n    left_dists = np.zeros_like(wavelengths)')]),
('01-b-unit', 'C01', [(U, '    w = np.array(wavelengths) / 1e4\n', '    w = np.asarray(wavelengths)\n    w /= 1e4\n')]),
('01-b-refine', 'C01', [(U, '    spectrum = np.array(spectrum)\n', '    spectrum = np.asarray(spectrum)\n    spectrum[~np.isfinite(spectrum)] = np.nan\n')]),
('01-b-plotfit', 'C01', [(P, '            spectrum = np.log10(np.where(spectrum < 0, 1e-100, spectrum))\n            vline_max', '            spectrum[spectrum < 0] = 1e-100\n            spectrum = np.log10(spectrum)\n            vline_max')]),
('01-b-x0', 'C01', [(M, '        p_init = np.array(p_init, dtype=float)[::-1]\n', '        p_init = np.asarray(x0, dtype=float)[::-1]\n')]),
('01-b-delta', 'C01', [(C, '            fit_coeff_new = np.array(fit_coeff, dtype="float")\n', '            fit_coeff_new = np.asarray(fit_coeff, dtype="float")\n')]),
('01-b-adjust', 'C01', [(C, '        fit_new = fit.copy()\n', '        fit_new = np.asarray(fit)\n')]),
('01-b-elements', 'C01', [(A, '        if not isinstance(elements, list):\n            elements = list(elements)\n\n        if not isinstance(wavelengths, list)', '        if not isinstance(elements, list):\n            elements = list(elements)\n\n        while len(elements) < len(wavelengths):\n            elements.append(elements[-1])\n\n        if not isinstance(wavelengths, list)')]),
('01-b-minint', 'C01', [(U, '        min_intensity_dict = {}\n\n        for i, e in enumerate(elements):\n            min_intensity_dict[e] = min_intensity[i]\n', '        min_intensity_dict = {}\n\n        for i, e in enumerate(elements):\n            min_intensity[i] = float(min_intensity[i])\n            min_intensity_dict[e] = min_intensity[i]\n')]),
('01-b-known', 'C01', [(C, '        self.pix_known = pix\n', '        order = np.argsort(pix)\n        wave[:] = wave[order]\n        pix.sort()\n        self.pix_known = pix\n')]),
('01-b-knownlater', 'C01', [(C, '                if self.pix_known is not None:\n                    x_hat', '                if self.pix_known is not None:\n                    self.pix_known -= 0.0\n                    x_hat')]),
('01-b-default', 'C01', [(U, '    if isinstance(elements, str):\n        elements = [elements]\n\n    # Element,', '    if isinstance(elements, str):\n        elements = [elements]\n\n    if "Cu" not in elements:\n        elements.append("Cu")\n\n    # Element,')]),
('01-b-hp', 'C01', [(H, '            points = hp\n', '            points = hp\n            points.sort(axis=0)\n')]),
('01-b-hpobj', 'C01', [(H, '            points = hp.hough_points\n', '            points = hp.hough_points\n            points *= 1.0\n')]),
('01-b-coeff', 'C01', [(M, '    assert len(a) == degree + 1\n', '    assert len(a) == degree + 1\n    a[-1] = float(a[-1])\n')]),
('01-b-refit', 'C01', [(C, '        x = np.asarray(matched_peaks)\n        y = np.asarray(matched_atlas)\n', '        x = np.asarray(matched_peaks)\n        y = np.asarray(matched_atlas)\n        np.round(y, 4, out=y)\n')]),
('01-b-pixlist', 'C01', [(C, '            self.pixel_list = np.asarray(pixel_list)\n', '            self.pixel_list = np.asarray(pixel_list)\n            self.pixel_list.sort()\n')]),
('01-b-shuffle', 'C01', [(C, '        peaks = np.sort(np.unique(x))\n', '        np.random.shuffle(self.fit_coeff)\n        peaks = np.sort(np.unique(x))\n')]),
('01-b-figkw', 'C01', [(P, '    fig = plt.figure(**fig_kwarg)\n', '    fig_kwarg.setdefault("dpi", 100)\n    fig = plt.figure(**fig_kwarg)\n')]),
# ---- C01 fine
('01-r-array', 'none', [(C, 'self.peaks = copy.deepcopy(peaks)', 'self.peaks = np.array(peaks)')]),
('01-r-copied', 'none', [(C, 'self.spectrum = copy.deepcopy(spectrum)', 'self.spectrum = None if spectrum is None else np.array(spectrum, copy=True)')]),
('01-r-localsort', 'none', [(H, '        x = x[idx_sort]\n        y = y[idx_sort]\n', '        y = y[idx_sort]\n        x = x.copy()\n        x.sort()\n')]),
('01-r-unit', 'none', [(U, '    w = np.array(wavelengths) / 1e4\n', '    w = np.array(wavelengths, dtype=float)\n    w /= 1e4\n')]),
('01-r-refine', 'none', [(U, '    spectrum = np.array(spectrum)\n', '    spectrum = np.array(spectrum, dtype=float)\n    spectrum[~np.isfinite(spectrum)] = np.nan\n')]),
('01-r-plotfit', 'none', [(P, '            spectrum = np.log10(np.where(spectrum < 0, 1e-100, spectrum))\n            vline_max', '            spectrum = np.array(spectrum, dtype=float)\n            spectrum[spectrum < 0] = 1e-100\n            spectrum = np.log10(spectrum)\n            vline_max')]),
('01-r-elements', 'none', [(U, '    if isinstance(elements, str):\n        elements = [elements]\n\n    # Element,', '    elements = [elements] if isinstance(elements, str) else list(elements)\n\n    # Element,')]),
('01-r-dictcopy', 'none', [(P, '    fig = plt.figure(**fig_kwarg)\n', '    fig_kwarg = dict(fig_kwarg)\n    fig_kwarg.setdefault("figsize", (12, 8))\n    fig = plt.figure(**fig_kwarg)\n')]),
('01-r-adjust', 'none', [(C, '        fit_new = fit.copy()\n', '        fit_new = np.array(fit, dtype=float)\n')]),
# ---- C02
('02-b-spec', 'C02', [(P, '                np.log10(calibrator.spectrum / calibrator.spectrum.max()),', '                np.log10(np.divide(calibrator.spectrum, calibrator.spectrum.max(), out=calibrator.spectrum)),')]) ,
('02-b-pixlist', 'C02', [(P, '    if (pixel_list is None) and (calibrator.spectrum is not None):\n        pixel_list = np.arange(len(calibrator.spectrum))', '    if (pixel_list is None) and (calibrator.spectrum is not None):\n        pixel_list = np.arange(len(calibrator.spectrum))\n        calibrator.pixel_list = pixel_list')]),
('02-b-matched', 'C02', [(P, '        for p, x in zip(calibrator.matched_peaks, calibrator.matched_atlas):\n', '        calibrator.matched_peaks.sort()\n        for p, x in zip(calibrator.matched_peaks, calibrator.matched_atlas):\n')]),
('02-b-rms', 'C02', [(P, '        rms = np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))\n\n        ax1.grid', '        rms = calibrator.rms = np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))\n\n        ax1.grid')]),
('02-b-cand', 'C02', [(P, '    # Get the search space boundaries\n', '    calibrator.candidate_peak = candidate_peak\n    # Get the search space boundaries\n')]),
('02-b-atlas', 'C02', [(P, '            ax1.vlines(\n                calibrator.atlas.get_lines(),', '            calibrator.atlas.remove_atlas_lines_range(0.0, 1000.0)\n            ax1.vlines(\n                calibrator.atlas.get_lines(),')]),
('02-b-lib', 'C02', [(P, '    elif calibrator.plot_with_plotly:\n        _import_plotly()\n\n        fig = go.Figure()\n\n        # Plot all-pairs', '    elif calibrator.plot_with_plotly:\n        _import_plotly()\n        calibrator.plotly_imported = True\n\n        fig = go.Figure()\n\n        # Plot all-pairs')]),
('02-b-pairs', 'C02', [(P, '    # Get the search space boundaries\n', '    if calibrator.pairs is None:\n        calibrator._generate_pairs()\n\n    # Get the search space boundaries\n')]),
('02-b-ymax', 'C02', [(P, '    x = calibrator.pixel_list\n', '    x = calibrator.pixel_list\n    x += 0\n')]),
('02-b-coef', 'C02', [(C, '        return plotting.plot_fit(\n            self,\n', '        if fit_coeff is None:\n            fit_coeff = self.fit_coeff\n        else:\n            self.fit_coeff = fit_coeff\n\n        return plotting.plot_fit(\n            self,\n')]),
('02-b-tryfinally', 'C02', [(C, '        return plotting.plot_arc(\n            self,\n            pixel_list=pixel_list,', '        spectrum = self.spectrum\n        if spectrum is not None:\n            self.spectrum = np.abs(spectrum)\n        out = plotting.plot_arc(self)\n        self.spectrum = spectrum\n        if out is not None:\n            return out\n        return plotting.plot_arc(\n            self,\n            pixel_list=pixel_list,')]),
('02-r-local', 'none', [(P, '    x = calibrator.pixel_list\n', '    x = np.array(calibrator.pixel_list)\n    x += 0\n')]),
('02-r-peaks', 'none', [(P, '        for p, x in zip(calibrator.matched_peaks, calibrator.matched_atlas):\n', '        mp = list(calibrator.matched_peaks)\n        for p, x in zip(mp, calibrator.matched_atlas):\n')]),
# ---- C18
('18-b-else', 'C18', [(P, '    else:\n        vline_max = 1.0\n        text_box_pos = 0.5\n', '    else:\n        vline_max = 1.0\n')]),
('18-b-init', 'C18', [(C, '        self.rms = None\n', '')] if False else [(C, '        self.hough_weight = None\n', ''), (C, '        self.constrain_poly = None\n', '')]),
('18-b-import', 'C18', [(U, 'import os\n', '')]),
('18-b-name', 'C18', [(H, '            output_json["yedges"] = self.yedges.tolist()', '            output_json["yedges"] = yedges.tolist()')]),
('18-b-attr', 'C18', [(C, '        self.matched_peaks = []\n        self.matched_atlas = []\n', '        self.matched_peaks = []\n')]),
('18-b-branch', 'C18', [(P, '            spec_max = np.nanmax(spectrum) * 1.05\n\n        else:\n            spec_max = vline_max\n', '            spec_max = np.nanmax(spectrum) * 1.05\n')]),
('18-b-typo', 'C18', [(C, '                    self.logger.debug("Intercept exceeds bounds.")', '                    self.loger.debug("Intercept exceeds bounds.")')]),
('18-b-loopvar', 'C18', [(C, '        for p in np.unique(x):\n            candidates[p] = y[x == p]\n', '        for q in np.unique(x):\n            candidates[q] = y[x == q]\n'), (C, '        self.logger.info("Found: {}".format(best_inliers))', '        self.logger.info("Found: {} {}".format(best_inliers, p))')]),
('18-b-global', 'C18', [(P, '        _import_plotly()\n\n        fig = go.Figure()\n\n        # Top plot', '        fig = go.Figure()\n\n        # Top plot')]),
('18-r-init', 'none', [(P, '    else:\n        vline_max = 1.0\n        text_box_pos = 0.5\n\n    wave', '    if spectrum is None:\n        vline_max, text_box_pos = 1.0, 0.5\n\n    wave')]),
('18-r-default', 'none', [(P, '            spec_max = np.nanmax(spectrum) * 1.05\n\n        else:\n            spec_max = vline_max\n', '            spec_max = np.nanmax(spectrum) * 1.05\n\n        if spectrum is None:\n            spec_max = vline_max\n')]),
# ---- C20
('20-b-arc', 'C20', [(P, '    if (pixel_list is None) and (calibrator.spectrum is not None):', '    if pixel_list is None:')]),
('20-b-filename', 'C20', [(P, '            if filename is None:\n                filename_output = "rascal_solution"\n\n            else:\n                filename_output = filename\n\n            for t in fig_type:\n                if t == "iframe"', '            filename_output = filename\n\n            for t in fig_type:\n                if t == "iframe"')]),
('20-b-intens', 'C20', [(A, '            intensities = [0] * len(wavelengths)\n\n        else:\n            if not', '            pass\n\n        else:\n            if not')]),
('20-b-known', 'C20', [(C, '                if self.pix_known is not None:\n                    x_hat', '                if self.hough_weight is not None:\n                    x_hat')]),
('20-b-spec', 'C20', [(C, '        if num_pix is not None:\n', '        if self.num_pix is None:\n            num_pix = num_pix or len(self.spectrum)\n\n        if num_pix is not None:\n')]),
('20-b-coef', 'C20', [(C, '            fit_coeff = self.fit_coeff.copy()\n', '            fit_coeff = fit_coeff.copy()\n')]),
('20-b-deg', 'C20', [(C, '        if fit_coeff is not None:\n            self.fit_deg = len(fit_coeff) - 1\n\n        self.fit_tol', '        self.fit_deg = max(self.fit_deg, len(fit_coeff) - 1)\n\n        self.fit_tol')]),
('20-r-hw', 'none', [(C, '        if (self.ht.xedges is not None) and (self.hough_weight is not None):\n', '        if self.ht.xedges is not None:\n')]),
('20-b-plotfit', 'C20', [(P, '                if spectrum is not None:\n                    fitted_peaks_adu.append(\n                        spectrum[int(calibrator.pix_to_rawpix(p))]\n                    )\n', '                fitted_peaks_adu.append(\n                    spectrum[int(calibrator.pix_to_rawpix(p))]\n                )\n')]),
('20-b-limit', 'C20', [(C, '        if min_atlas_wavelength is None:\n            min_atlas_wavelength = self.min_wavelength - self.range_tolerance\n\n', '')]),
('20-r-bright', 'none', [(U, '    if brightest_n_lines is not None:\n', '    if brightest_n_lines != 0:\n')]),
('20-r-arc', 'none', [(P, '    if (pixel_list is None) and (calibrator.spectrum is not None):', '    spectrum = calibrator.spectrum\n    if pixel_list is None and spectrum is not None:')]),
]
