C = 'calibrator.py'
PR = 'prob = 1.0 / h[0][np.digitize(peaks, h[1][1:-1])]'
CH = '''                    x_hat = np.random.choice(
                        peaks, self.sample_size, replace=False, p=prob
                    )
'''
GE = 'if brute_force or (self.sample_size >= len(np.unique(x))):'
EDITS = [
('32-b-right', 'C32', [(C, PR, 'prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]')]),
('32-b-last', 'C32', [(C, PR, 'prob = 1.0 / h[0][np.digitize(peaks, h[1]) - 1]')]),
('32-b-left', 'C32', [(C, PR, 'prob = 1.0 / h[0][np.searchsorted(h[1][1:-1], peaks)]')]),
('32-b-clip', 'C32', [(C, PR, 'prob = 1.0 / h[0][np.clip(np.digitize(peaks, h[1]), 0, 9)]')]),
('32-b-rep', 'C32', [(C, CH, CH.replace('replace=False, ', ''))]),
('32-b-more', 'C32', [(C, GE, 'if brute_force or (self.sample_size > len(x)):')]),
('32-b-gt', 'none', [(C, GE, 'if brute_force or (self.sample_size > len(np.unique(x))):')]),
('32-b-norm', 'C32', [(C, '            prob = prob / np.sum(prob)\n', '')]),
('32-b-lines', 'C32', [(C, GE, 'if brute_force or (self.sample_size >= len(self.peaks)):')]),
('32-b-capless', 'C32', [(C, '''            if self.sample_size > len(np.unique(x)):
                self.sample_size = len(np.unique(x))
''', '')]),
('32-b-brute', 'none', [(C, GE, 'if brute_force or (self.sample_size + 1 > len(np.unique(x))):')]),
('32-r-clip', 'none', [(C, PR, 'prob = 1.0 / h[0][np.clip(np.digitize(peaks, h[1]) - 1, 0, len(h[0]) - 1)]')]),
('32-r-min', 'none', [(C, PR, 'prob = 1.0 / h[0][np.minimum(np.digitize(peaks, h[1]), 10) - 1]')]),
('32-r-ss', 'none', [(C, PR, 'prob = 1.0 / h[0][np.searchsorted(h[1][1:-1], peaks, side="right")]')]),
('32-r-names', 'none', [(C, '''            h = np.histogram(peaks, bins=10)
''', '''            counts, edges = np.histogram(peaks, bins=10)
'''), (C, PR, '''which = np.digitize(peaks, edges[1:-1])
            prob = 1.0 / counts[which]''')]),
('32-r-max', 'none', [(C, PR, 'prob = 1.0 / np.maximum(h[0][np.digitize(peaks, h[1], right=True) - 1], 1)')]),
('32-r-sum', 'none', [(C, '            prob = prob / np.sum(prob)\n', '            prob /= prob.sum()\n')]),
('32-r-helper', 'none', [(C, '''            h = np.histogram(peaks, bins=10)
            ''' + PR + '''
            prob = prob / np.sum(prob)
''', '''            prob = self._weights(peaks)
'''), (C, '    def _match_bijective(', '''    def _weights(self, peaks, bins=10):
        h = np.histogram(peaks, bins=bins)
        w = 1.0 / h[0][np.digitize(peaks, h[1][1:-1])]
        return w / np.sum(w)

    def _match_bijective(''')]),
('32-r-size', 'none', [(C, CH, '''                    n_draw = self.sample_size
                    x_hat = np.random.choice(
                        a=peaks, size=n_draw, replace=False, p=prob
                    )
''')]),
]
