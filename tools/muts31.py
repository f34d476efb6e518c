C = 'calibrator.py'
POOL = '''        for candidate in candidates:
            peaks.extend(candidate[0])
            wavelengths.extend(candidate[1])
            probabilities.extend(candidate[2])
'''
AGG = '''                unique_wavelengths = np.unique(wavelengths_matched)
                aggregated_count = np.zeros_like(unique_wavelengths)
                for j, w in enumerate(unique_wavelengths):
                    idx_j = np.where(wavelengths_matched == w)
                    aggregated_count[j] = np.sum(counts[idx_j])
'''
KEEP = '''                out_wavelengths.extend(
                    wavelengths_matched[np.argsort(-aggregated_count)[:n]]
                )
'''
LIN = '''            predicted = gradient * self.pairs[:, 0] + intercept
            actual = self.pairs[:, 1]
            diff = np.abs(predicted - actual)
            mask = diff <= candidate_tolerance
'''
WGT = '''            weight = gauss(
                actual[mask],
                1.0,
                predicted[mask],
                (self.range_tolerance + self.linearity_tolerance) * 1.1775,
            )
'''
APP = '''            self.candidates.append(
                (self.pairs[:, 0][mask], actual[mask], weight)
            )
'''
PSUM = '''            if np.sum(mask) > 0:
                weight = gauss(
                    actual[mask], 1.0, predicted[mask], self.range_tolerance
                )
                self.candidates.append(
                    [self.pairs[:, 0][mask], actual[mask], weight]
                )
'''
EDITS = [
 ('31-b-asc', 'C31', [(C, 'np.argsort(-aggregated_count)[:n]', 'np.argsort(aggregated_count)[:n]')]),
 ('31-b-last', 'C31', [(C, 'np.argsort(-aggregated_count)[:n]', 'np.argsort(-aggregated_count)[-n:]')]),
 ('31-b-max', 'C31', [(C, 'np.sum(counts[idx_j])', 'np.max(counts[idx_j])')]),
 ('31-b-mean', 'C31', [(C, 'np.sum(counts[idx_j])', 'np.mean(counts[idx_j])')]),
 ('31-b-noweight', 'C31', [(C, 'counts = probabilities[idx]', 'counts = np.ones_like(idx[0])')]),
 ('31-b-swapweight', 'C31', [(C, '                if weighted:\n                    counts', '                if not weighted:\n                    counts')]),
 ('31-b-plus1', 'C31', [(C, 'np.argsort(-aggregated_count)[:n]', 'np.argsort(-aggregated_count)[:n + 1]')]),
 ('31-b-allpeaks', 'C31', [(C, '                    counts = probabilities[idx]\n', '                    counts = probabilities\n')]),
 ('31-b-extendorder', 'C31', [(C, 'probabilities.extend(candidate[2])', 'probabilities.extend(candidate[1])')]),
 ('31-b-peakcol', 'C31', [(C, '            peaks.extend(candidate[0])\n            wavelengths.extend(candidate[1])', '            peaks.extend(candidate[1])\n            wavelengths.extend(candidate[0])')]),
 ('31-b-repeat', 'C31', [(C, 'out_peaks.extend([peak] * n)', 'out_peaks.extend([peak] * top_n_candidate)')]),
 ('31-b-sign', 'C31', [(C, LIN, LIN.replace('+ intercept', '- intercept'))]),
 ('31-b-noabs', 'C31', [(C, LIN, LIN.replace('np.abs(predicted - actual)', 'predicted - actual'))]),
 ('31-b-tol', 'C31', [(C, LIN, LIN.replace('diff <= candidate_tolerance', 'diff <= self.range_tolerance'))]),
 ('31-b-tolfield', 'C31', [(C, LIN, LIN.replace('diff <= candidate_tolerance', 'diff <= self.candidate_tolerance'))]),
 ('31-b-tolor', 'C31', [(C, LIN, LIN.replace('diff <= candidate_tolerance', '(diff <= candidate_tolerance) | (diff <= 0.01 * actual)'))]),
 ('31-b-wmask', 'C31', [(C, WGT, WGT.replace('actual[mask]', 'actual[mask][::-1]'))]),
 ('31-b-wsame', 'C31', [(C, WGT, WGT.replace('predicted[mask]', 'np.mean(predicted[mask])'))]),
 ('31-b-wabs', 'C31', [(C, WGT, WGT.replace('actual[mask]', 'actual[mask] + predicted[mask]'))]),
 ('31-b-wgrow', 'C31', [('util.py', 'return a * np.exp(-((x - x0) ** 2)', 'return a * np.exp(((x - x0) ** 2)')]),
 ('31-b-cols', 'C31', [(C, APP, APP.replace('self.pairs[:, 0][mask], actual[mask]', 'actual[mask], self.pairs[:, 0][mask]'))]),
 ('31-b-sortcol', 'C31', [(C, APP, APP.replace('actual[mask], weight', 'np.sort(actual[mask]), weight'))]),
 ('31-b-nomask', 'C31', [(C, PSUM, PSUM.replace('actual[mask], weight]', 'actual, weight]'))]),
 ('31-b-polyscale', 'C31', [(C, 'predicted = self.polyval(self.pairs[:, 0], self.fit_coeff) + d\n', 'predicted = self.polyval(self.pairs[:, 0], self.fit_coeff) * (1 + d)\n')]),
 ('31-b-polytol', 'C31', [(C, 'mask = diff < candidate_tolerance', 'mask = diff < candidate_tolerance + self.range_tolerance')]),
 # kept
 ('31-r-where', 'none', [(C, LIN, LIN.replace('mask = diff <= candidate_tolerance', 'mask = np.where(diff <= candidate_tolerance)[0]'))]),
 ('31-r-notgt', 'none', [(C, LIN, LIN.replace('mask = diff <= candidate_tolerance', 'mask = ~(diff > candidate_tolerance)'))]),
 ('31-r-two', 'none', [(C, LIN, LIN.replace('diff = np.abs(predicted - actual)\n            mask = diff <= candidate_tolerance', 'diff = predicted - actual\n            mask = (diff <= candidate_tolerance) & (-candidate_tolerance <= diff)'))]),
 ('31-r-unpack', 'none', [(C, LIN, '''            pixels, actual = self.pairs[:, 0], self.pairs[:, 1]
            predicted = intercept + pixels * gradient
            diff = np.abs(actual - predicted)
            mask = np.less_equal(diff, candidate_tolerance)
'''), (C, APP, APP.replace('self.pairs[:, 0][mask]', 'pixels[mask]'))]),
 ('31-r-rows', 'none', [(C, APP, '''            chosen = self.pairs[mask]
            self.candidates.append((chosen[:, 0], chosen[:, 1], weight))
''')]),
 ('31-r-wfirst', 'none', [(C, WGT, '''            sigma = (self.range_tolerance + self.linearity_tolerance) * 1.1775
            weight = gauss(actual, 1.0, predicted, sigma)[mask]
''')]),
 ('31-r-locallist', 'none', [(C, '        self.candidates = []\n\n        for line in', '        found = []\n\n        for line in'), (C, APP, APP.replace('self.candidates.append', 'found.append') + '\n        self.candidates = found\n')]),
 ('31-r-comp', 'none', [(C, AGG, '''                unique_wavelengths = np.unique(wavelengths_matched)
                aggregated_count = np.array(
                    [
                        np.sum(counts[wavelengths_matched == w])
                        for w in unique_wavelengths
                    ]
                )
''')]),
 ('31-r-rev', 'none', [(C, KEEP, '''                order = np.argsort(-aggregated_count)[:n]
                best = wavelengths_matched[order]
                out_wavelengths.extend(best)
''')]),
 ('31-r-fixed', 'none', [(C, KEEP, KEEP.replace('wavelengths_matched', 'unique_wavelengths'))]),
 ('31-r-fixed2', 'none', [(C, KEEP, '''                order = np.argsort(-aggregated_count)
                out_wavelengths.extend(unique_wavelengths[order][:n])
''')]),
 ('31-r-mask', 'none', [(C, '            idx = np.where(peaks == peak)\n', '            idx = np.flatnonzero(peaks == peak)\n')]),
 ('31-r-counts', 'none', [(C, '                    counts = np.ones_like(probabilities[idx])', '                    counts = np.ones(len(wavelengths_matched))')]),
 ('31-r-helper', 'none', [(C, AGG, '''                unique_wavelengths, aggregated_count = self._support(
                    wavelengths_matched, counts
                )
'''), (C, '    def _get_most_common_candidates(', '''    @staticmethod
    def _support(lines, counts):
        distinct = np.unique(lines)
        total = np.zeros_like(distinct)
        for j, w in enumerate(distinct):
            total[j] = np.sum(counts[np.where(lines == w)])
        return distinct, total

    def _get_most_common_candidates(''')]),
 ('31-r-pool', 'none', [(C, POOL, '''        for _peaks, _waves, _probs in candidates:
            peaks.extend(_peaks)
            wavelengths.extend(_waves)
            probabilities.extend(_probs)
''')]),
 ('31-r-zip', 'none', [(C, '        for line in self.hough_lines:\n            gradient, intercept = line\n', '        for gradient, intercept in self.hough_lines:\n')]),
]
