C = 'calibrator.py'
INS = '''                if self.pix_known is not None:
                    x_hat = np.concatenate((x_hat, self.pix_known))
                    y_hat = np.concatenate((y_hat, self.wave_known))
'''
SAMPLE = '''                    x_hat = x[list(sample)]
                    y_hat = y[list(sample)]
'''
PICK = '''                        y_choice = candidates[_x]
'''
BUILD = '''        for p in np.unique(x):
            candidates[p] = y[x == p]
'''
SET = '''        self.pix_known = pix
        self.wave_known = wave
'''
EDITS = [
 ('29-only-random', 'C29', [(C, INS, INS.replace('is not None:', 'is not None and not brute_force:'))]),
 ('29-none', 'C29', [(C, INS, '')]),
 ('29-order', 'C29', [(C, INS, INS.replace('(x_hat, self.pix_known)', '(self.pix_known, x_hat)'))]),
 ('29-swap', 'C29', [(C, INS, INS.replace('self.pix_known))', 'self.wave_known))').replace('(y_hat, self.wave_known)', '(y_hat, self.pix_known)'))]),
 ('29-first', 'C29', [(C, INS, INS.replace('self.pix_known))', 'self.pix_known[:1]))').replace('self.wave_known))', 'self.wave_known[:1]))'))]),
 ('29-sorted', 'C29', [(C, INS, INS.replace('(x_hat, self.pix_known)', '(x_hat, np.sort(self.pix_known))'))]),
 ('29-degree', 'C29', [(C, INS, INS.replace('is not None:', 'is not None and len(self.pix_known) <= self.fit_deg:'))]),
 ('29-idx', 'C29', [(C, SAMPLE, SAMPLE.replace('y[list(sample)]', 'y[list(sample)[::-1]]'))]),
 ('29-sortx', 'C29', [(C, SAMPLE, SAMPLE.replace('x[list(sample)]', 'np.sort(x)[list(sample)]'))]),
 ('29-anyline', 'C29', [(C, PICK, '                        y_choice = y\n')]),
 ('29-first-peak', 'C29', [(C, PICK, '                        y_choice = candidates[x_hat[0]]\n')]),
 ('29-close', 'C29', [(C, BUILD, BUILD.replace('x == p', 'np.abs(x - p) < self.range_tolerance'))]),
 ('29-wrongrows', 'C29', [(C, '''            y = y[separation_mask].flatten()
            x = x[separation_mask].flatten()
''', '''            y = y[separation_mask].flatten()
            x = x[: len(y)]
''')]),
 ('29-set-sort', 'C29', [(C, SET, SET.replace('= pix\n', '= np.sort(pix)\n'))]),
 ('29-set-swap', 'C29', [(C, SET, '''        self.pix_known = wave
        self.wave_known = pix
''')]),
 ('29-set-round', 'C29', [(C, SET, SET.replace('= pix\n', '= np.round(pix)\n'))]),
 ('29-clear', 'C29', [(C, '    def set_known_pairs(', '''    def clear_known(self):
        """Forget the known pairs."""
        self.wave_known = None

    def set_known_pairs(''')]),
 ('29-r-hstack', 'none', [(C, INS, '''                if self.pix_known is not None:
                    x_hat = np.hstack([x_hat, self.pix_known])
                    y_hat = np.append(y_hat, self.wave_known)
''')]),
 ('29-r-front', 'none', [(C, INS, INS.replace('(x_hat, self.pix_known)', '(self.pix_known, x_hat)').replace('(y_hat, self.wave_known)', '(self.wave_known, y_hat)'))]),
 ('29-r-none', 'none', [(C, INS, '''                known = self.pix_known
                if known is None:
                    pass
                else:
                    x_hat = np.concatenate((x_hat, known))
                    y_hat = np.concatenate((y_hat, self.wave_known))
''')]),
 ('29-r-size', 'none', [(C, INS, INS.replace('is not None:', 'is not None and len(self.pix_known) > 0:'))]),
 ('29-r-helper', 'none', [(C, INS, '''                x_hat, y_hat = self._with_known(x_hat, y_hat)
'''), (C, '    def set_known_pairs(', '''    def _with_known(self, px, wl):
        if self.pix_known is None:
            return px, wl
        return (
            np.concatenate((px, self.pix_known)),
            np.concatenate((wl, self.wave_known)),
        )

    def set_known_pairs(''')]),
 ('29-r-take', 'none', [(C, SAMPLE, '''                    chosen = list(sample)
                    x_hat = np.take(x, chosen)
                    y_hat = np.take(y, chosen)
''')]),
 ('29-r-arr', 'none', [(C, SAMPLE, '''                    chosen = np.array(sample)
                    x_hat, y_hat = x[chosen], y[chosen]
''')]),
 ('29-r-dict', 'none', [(C, BUILD, '''        candidates = {p: y[x == p] for p in np.unique(x)}
'''), (C, "        candidates = {}\n\n", "")]),
 ('29-r-where', 'none', [(C, BUILD, BUILD.replace('y[x == p]', 'y[np.where(x == p)[0]]'))]),
 ('29-r-inline', 'none', [(C, PICK, '                        y_choice = y[x == _x]\n')]),
 ('29-r-enum', 'none', [(C, '                    for _x in x_hat:\n', '                    for n_x in range(len(x_hat)):\n                        _x = x_hat[n_x]\n')]),
 ('29-r-list', 'none', [(C, INS, '''                if self.pix_known is not None:
                    x_hat = list(x_hat) + list(self.pix_known)
                    y_hat = list(y_hat) + list(self.wave_known)
''')]),
]
