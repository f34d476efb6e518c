C = 'calibrator.py'
M = '''        if fit_deg is None:
            fit_deg = len(fit_coeff) - 1
'''
F = '''        if fit_coeff is not None:
            self.fit_deg = len(fit_coeff) - 1
'''
S = '''        if self.sample_size <= self.fit_deg:
            self.sample_size = self.fit_deg + 1
'''
X = '''        if (x0 is None) and (degree is None):
            x0 = self.fit_coeff
            degree = len(x0) - 1
'''
X2 = '''        elif (x0 is not None) and (degree is None):
            assert isinstance(x0, list)
            degree = len(x0) - 1
'''
RP = '''        fit_coeff_new = models.robust_polyfit(x, y, degree, x0)
'''
CP = '''            candidate_coeff = self.polyfit(
                matched_peaks, matched_atlas, fit_deg
            )
'''
EDITS = [
('33-m-len', 'C33', [(C, M, M.replace(' - 1', ''))]),
('33-m-own', 'C33', [(C, M, M.replace('len(fit_coeff) - 1', 'self.fit_deg'))]),
('33-m-curr', 'C33', [(C, M, M.replace('len(fit_coeff)', 'len(self.fit_coeff)'))]),
('33-m-cand', 'C33', [(C, CP, CP.replace('fit_deg', 'len(fit_coeff) - 1'))]),
('33-m-or', 'none', [(C, M, '        fit_deg = len(fit_coeff) - 1 if fit_deg is None else fit_deg\n')]),
('33-m-size', 'none', [(C, M, M.replace('len(fit_coeff)', 'np.size(fit_coeff)'))]),
('33-f-drop', 'C33', [(C, F, '')]),
('33-f-len', 'C33', [(C, F, F.replace(' - 1', ''))]),
('33-f-max', 'C33', [(C, F, F.replace('len(fit_coeff) - 1', 'max(fit_deg, len(fit_coeff) - 1)'))]),
('33-f-else', 'none', [(C, '        self.fit_deg = fit_deg\n        self.fit_coeff = fit_coeff\n' + F, '''        self.fit_coeff = fit_coeff
        if fit_coeff is None:
            self.fit_deg = fit_deg
        else:
            self.fit_deg = len(fit_coeff) - 1
''')]),
('33-s-drop', 'C33', [(C, S, '')]),
('33-s-lt', 'C33', [(C, S, S.replace('<=', '<'))]),
('33-s-same', 'C33', [(C, S, S.replace(' + 1', ''))]),
('33-s-max', 'none', [(C, S, '        self.sample_size = max(self.sample_size, self.fit_deg + 1)\n')]),
('33-p-few', 'C33', [(C, 'if len(np.unique(x)) <= self.fit_deg:', 'if len(np.unique(x)) < self.fit_deg:')]),
('33-p-rob', 'C33', [(C, 'if len(matched_peaks) <= self.fit_deg:', 'if len(matched_peaks) < self.fit_deg:')]),
('33-p-rob2', 'none', [(C, 'if len(matched_peaks) <= self.fit_deg:', 'if len(matched_atlas) < self.fit_deg + 1:')]),
('33-p-robdeg', 'C33', [(C, 'matched_peaks, matched_atlas, self.fit_deg\n', 'matched_peaks, matched_atlas, min(self.fit_deg, 3)\n')]),
('33-x-cur', 'C33', [(C, X, X.replace('            degree = len(x0) - 1', '            degree = self.fit_deg'))]),
('33-x-nox', 'C33', [(C, X, X.replace('x0 = self.fit_coeff', 'x0 = None').replace('len(x0)', 'len(self.fit_coeff)'))]),
('33-x-none', 'C33', [(C, RP, RP.replace(', x0', ''))]),
('33-x-self', 'C33', [(C, RP, RP.replace(', x0', ', self.fit_coeff'))]),
('33-x-len', 'C33', [(C, X2, X2.replace('len(x0) - 1', 'len(self.fit_coeff) - 1'))]),
('33-x-pts', 'C33', [(C, '        assert degree <= len(x) - 1\n', '        assert degree <= len(x)\n')]),
('33-x-pts0', 'C33', [(C, '        assert degree <= len(x) - 1\n', '')]),
('33-x-ptsr', 'none', [(C, '        assert degree <= len(x) - 1\n', '        if degree + 1 > len(y):\n            raise AssertionError("too few")\n')]),
('33-x-join', 'none', [(C, X, '''        if (x0 is None) and (degree is None):
            x0 = self.fit_coeff
            degree = len(self.fit_coeff) - 1
''')]),
('33-x-kw', 'none', [(C, RP, RP.replace('degree, x0', 'x0=x0, degree=degree'))]),
('33-x-help', 'none', [(C, RP, '        fit_coeff_new = self._refit(x, y, degree, x0)\n'), (C, '    def manual_refit(', '''    def _refit(self, a, b, n, start):
        return models.robust_polyfit(a, b, n, start)

    def manual_refit(''')]),
]
