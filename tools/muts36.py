C = 'calibrator.py'
W = "                wave = self.polyval(self.pixel_list, fit_coeffs)\n"
G = """                gradient = self.polyval(
                    self.pixel_list, _derivative(fit_coeffs)
                )
"""
I = "                intercept = wave - gradient * self.pixel_list\n"
T = "twoditp(gradient, intercept, grid=False)"
K = """                cost = (
                    sum(err)
                    / (len(err) - len(fit_coeffs) + 1)
                    / (weight + 1e-9)
                )
"""
E_ = "                err[err > self.ransac_tolerance] = self.ransac_tolerance\n"
XB = "            xbin_size = (self.ht.xedges[1] - self.ht.xedges[0]) / 2.0\n"
YB = "            ybin_size = (self.ht.yedges[1] - self.ht.yedges[0]) / 2.0\n"
SP = """                    self.ht.xedges[1:] - xbin_size,
                    self.ht.yedges[1:] - ybin_size,
                    self.ht.hist,
"""
MB = """                err, matched_x, matched_y = self._match_bijective(
                    candidates, peaks, fit_coeffs
                )
"""
HW = "                    weight = self.hough_weight * np.sum(\n"
MN = """                if not np.all(
                    np.diff(
                        self.polyval(
                            np.arange(pix_min, pix_max, 1), fit_coeffs
                        )
                    )
                    > 0
                ):
"""
PX = "                pix_max = peaks[-1] + np.ptp(peaks) * 0.2\n"
LS = """            np.sum((y_matched - self.polyval(x_matched, fit_new)) ** 2.0) / dof
"""
FD = "            fit_new[i] += d\n"
XN = """            x = self.polyval(p, fit_new)
            diff = atlas_lines - x
            diff_abs = np.abs(diff)
"""
FM = """        if not np.all(
            np.diff(self.polyval(np.sort(self.pixel_list), fit_new)) > 0
        ):
"""
EDITS = [
('36-int-sign', 'C36', [(C, I, I.replace('wave -', 'wave +'))]),
('36-int-peaks', 'C36', [(C, I, I.replace('gradient * self.pixel_list', 'gradient * np.arange(len(wave))'))]),
('36-int-mean', 'C36', [(C, I, I.replace('gradient *', 'gradient.mean() *'))]),
('36-wave-old', 'C36', [(C, W, W.replace('fit_coeffs', 'best_p'))]),
('36-grad-no', 'C36', [(C, G, G.replace('_derivative(fit_coeffs)', 'fit_coeffs'))]),
('36-swap', 'C36', [(C, T, T.replace('gradient, intercept', 'intercept, gradient'))]),
('36-swap-axes', 'C36', [(C, SP, SP.replace('xedges', 'Q').replace('yedges', 'xedges').replace('Q', 'yedges'))]),
('36-hist-T', 'C36', [(C, SP, SP.replace('self.ht.hist', 'self.ht.hist.T'))]),
('36-xb-mult', 'C36', [(C, XB, XB.replace('/ 2.0', '* 2.0'))]),
('36-xb-none', 'C36', [(C, SP, SP.replace('self.ht.xedges[1:] - xbin_size', 'self.ht.xedges[1:]'))]),
('36-xy-bin', 'C36', [(C, SP, SP.replace('- ybin_size', '- xbin_size'))]),
('36-yb-x', 'C36', [(C, YB, YB.replace('yedges', 'xedges'))]),
('36-plus', 'C36', [(C, SP, SP.replace('yedges[1:] -', 'yedges[1:] +'))]),
('36-clip-none', 'C36', [(C, E_, '')]),
('36-clip-zero', 'C36', [(C, E_, E_.replace('= self.ransac_tolerance\n', '= 0.0\n'))]),
('36-clip-lt', 'C36', [(C, E_, E_.replace('>', '<'))]),
('36-clip-range', 'C36', [(C, E_, E_.replace('= self.ransac_tolerance\n', '= self.range_tolerance\n'))]),
('36-cost-mult', 'C36', [(C, K, K.replace('/ (weight', '* (weight'))]),
('36-cost-noerr', 'C36', [(C, K, K.replace('sum(err)', 'len(err)'))]),
('36-cost-dof', 'C36', [(C, K, K.replace('- len(fit_coeffs) + 1', '+ len(fit_coeffs) + 1'))]),
('36-cost-total', 'C36', [(C, K, K.replace('/ (len(err) - len(fit_coeffs) + 1)', '* (len(err) - len(fit_coeffs) + 1)'))]),
('36-bij-old', 'C36', [(C, MB, MB.replace('fit_coeffs', 'self.fit_coeff'))]),
('36-hw', 'none', [(C, HW, HW.replace('self.hough_weight *', ''))]),
('36-mono-any', 'C10', [(C, MN, MN.replace('np.all', 'np.any'))]),
('36-mono-lt', 'C10', [(C, MN, MN.replace('> 0', '< 0'))]),
('36-mono-peaks', 'C10', [(C, MN, MN.replace('np.arange(pix_min, pix_max, 1)', 'matched_x'))]),
('36-mono-short', 'C10', [(C, PX, PX.replace('peaks[-1]', 'peaks[0]'))]),
('36-adj-lsq', 'C36', [(C, LS, LS.replace('fit_new', 'fit'))]),
('36-adj-lsq2', 'C36', [(C, LS, LS.replace(' / dof', ' * dof'))]),
('36-adj-set', 'C17', [(C, FD, FD.replace('+=', '='))]),
('36-adj-near', 'C36', [(C, XN, XN.replace('fit_new', 'fit'))]),
('36-adj-mono', 'C36', [(C, FM, FM.replace('np.all', 'np.any'))]),
('36-adj-mono2', 'C36', [(C, FM, FM.replace('> 0', '!= 0'))]),
('36-adj-nomono', 'C36', [(C, FM, "        if False:\n")]),
('36-adj-frac', 'C36', [(C, "if len(x_matched) < len(self.peaks) * min_frac:", "if len(x_matched) > len(self.peaks) * min_frac:")]),
('36-adj-nofrac', 'C36', [(C, "if len(x_matched) < len(self.peaks) * min_frac:", "if len(x_matched) < 2:")]),
('36-adj-fracdiv', 'C36', [(C, "if len(x_matched) < len(self.peaks) * min_frac:", "if len(x_matched) * min_frac < len(self.peaks):")]),
('36-adj-sum', 'C36', [(C, LS, LS.replace(" ** 2.0", ""))]),
('36-r-adj-abs', 'none', [(C, LS, LS.replace("np.sum((y_matched - self.polyval(x_matched, fit_new)) ** 2.0)", "np.sum(np.square(self.polyval(x_matched, fit_new) - y_matched))"))]),
('36-r-clip', 'none', [(C, E_, "                err = np.minimum(err, self.ransac_tolerance)\n")]),
('36-r-clip2', 'none', [(C, E_, "                err = np.where(err > self.ransac_tolerance, self.ransac_tolerance, err)\n")]),
('36-r-clip3', 'none', [(C, E_, "                err = np.clip(err, None, self.ransac_tolerance)\n")]),
('36-r-cost', 'none', [(C, K, """                dof = 1 + len(err) - len(fit_coeffs)
                cost = np.sum(err)
                cost /= dof * (weight + 1e-9)
""")]),
('36-r-mid', 'none', [(C, SP, """                    (self.ht.xedges[1:] + self.ht.xedges[:-1]) / 2.0,
                    self.ht.yedges[:-1] + ybin_size,
                    self.ht.hist,
""")]),
('36-r-loop', 'none', [(C, XB, "            ht = self.ht\n            xbin_size = 0.5 * (ht.xedges[1] - ht.xedges[0])\n"), (C, SP, SP.replace('self.ht', 'ht'))]),
('36-r-mono', 'none', [(C, FM, """        w_all = self.polyval(np.sort(self.pixel_list), fit_new)
        if np.any(w_all[1:] - w_all[:-1] <= 0):
""")]),
('36-r-frac', 'none', [(C, "if len(x_matched) < len(self.peaks) * min_frac:", "if min_frac * len(self.peaks) > len(y_matched):")]),
('36-r-int', 'none', [(C, I, "                intercept = -gradient * self.pixel_list\n                intercept = intercept + wave\n")]),
('36-r-helper', 'none', [(C, W + G + I, "                gradient, intercept = self._tangents(fit_coeffs)\n"), (C, "    def _adjust_polyfit(", """    def _tangents(self, c):
        g = self.polyval(self.pixel_list, _derivative(c))
        return g, self.polyval(self.pixel_list, c) - self.pixel_list * g

    def _adjust_polyfit(""")]),
('36-r-weight', 'none', [(C, K, """                per_dof = sum(err) / (len(matched_x) - len(fit_coeffs) + 1)
                cost = per_dof / (weight + 1e-9)
""")]),
('36-r-adj', 'none', [(C, "        for i, d in enumerate(delta):\n" + FD, """        n_shift = len(delta)
        fit_new = np.array(fit_new, dtype="float")
        fit_new[:n_shift] += delta
""")]),
('36-r-adj2', 'none', [(C, LS, LS.replace("np.sum((y_matched - self.polyval(x_matched, fit_new)) ** 2.0)", "sum([(b - self.polyval(a, fit_new)) ** 2.0 for a, b in zip(x_matched, y_matched)])"))]),
]
