C, A, U, P, S, H, M = ('calibrator.py', 'atlas.py', 'util.py', 'plotting.py',
                       'synthetic.py', 'houghtransform.py', 'models.py')
EDITS = [
('35-label', 'C35', [(P, '        if label:\n', '        if True:\n')]),
('35-log', 'C35', [(P, '    if log:\n        plt.ylim', '    if min_intensity < 0:\n        plt.ylim')]),
('35-top', 'C35', [(P, '        top_n_candidate=top_n_candidate,\n        weighted', '        top_n_candidate=calibrator.top_n_candidate,\n        weighted')]),
('35-weighted', 'C35', [(P, '        weighted=weighted,\n    )', '        weighted=calibrator.candidate_weighted,\n    )')]),
('35-tol', 'C35', [(P, '            if np.abs(diff[idx]) < tolerance:', '            if np.abs(diff[idx]) < calibrator.ransac_tolerance:')]),
('35-atlas', 'C35', [(P, '        if plot_atlas:\n', '        if spectrum is not None:\n')]),
('35-minfrac', 'C35', [(C, 'args=(fit_coeff, tolerance, min_frac),', 'args=(fit_coeff, tolerance, 0.5),')]),
('35-conv', 'C35', [(C, '                tol=convergence,\n', '                tol=1e-6,\n')]),
('35-method', 'C35', [(C, '                method=method,\n', '')]),
('35-ndelta', 'C35', [(C, '            if n_delta is None:\n', '            if True:\n')]),
('35-window', 'C35', [(U, 'left = max(0, int(peak) - window_width)', 'left = max(0, int(peak) - 10)'), (U, 'min(int(peak) + window_width, length)', 'min(int(peak) + 10, length)')]),
('35-figkw', 'C35', [(P, 'fig = plt.figure(**fig_kwarg)', 'fig = plt.figure(figsize=(12, 8))')]),
('35-robust', 'C35', [(C, '        if robust_refit:\n', '        if True:\n')]),
('35-assertonly', 'C35', [(C, '        if robust_refit:\n', '        assert isinstance(robust_refit, bool)\n        if True:\n')]),
('35-logonly', 'C35', [(C, '        if robust_refit:\n', '        self.logger.info("robust_refit is {}".format(robust_refit))\n        if True:\n')]),
('35-scale', 'C35', [(P, 'sigma = pixel_scale * 2.5 * 1.0', 'sigma = 2.5 * 1.0')]),
('35-rt', 'C35', [(C, 'self.atlas.remove_atlas_lines_range(wavelength, tolerance)', 'self.atlas.remove_atlas_lines_range(wavelength)')]),
('35-x-deg', 'none', [(C, '        if robust_refit:\n', '        refit = bool(robust_refit)\n        if refit:\n')]),
('35-x-partial', 'none', [(C, '                self._adjust_polyfit,\n', '                lambda d, fit, tol, frac: self._adjust_polyfit(d, fit, tolerance, min_frac),\n')]),
('35-x-kw', 'none', [(P, 'fig = plt.figure(**fig_kwarg)', 'options = dict(fig_kwarg)\n    fig = plt.figure(**options)')]),
('35-x-dict', 'none', [(C, '                method=method,\n                tol=convergence,\n', '                **dict(method=method, tol=convergence),\n')]),
]
