C = 'calibrator.py'
S = 'synthetic.py'
EDITS = [
    ('12-falsy', 'C12', [(C, 'if minimum_fit_error is not None:', 'if minimum_fit_error:')]),
    ('12-falsy2', 'C12', [(C, 'if linear is not None:', 'if linear:')]),
    ('12-reset', 'C12', [(C, 'elif self.range_tolerance is None:\n            self.range_tolerance = 500\n\n        else:\n            pass\n', 'else:\n            self.range_tolerance = 500\n')]),
    ('12-crossed', 'C12', [(C, 'self.ybins = ybins', 'self.ybins = xbins')]),
    ('12-samesize', 'C12', [(C, 'self.xbins = xbins', 'self.xbins = xbins\n            self.ybins = xbins')]),
    ('12-max', 'C12', [(C, 'self.top_n_candidate = top_n_candidate', 'self.top_n_candidate = max(self.top_n_candidate or 0, top_n_candidate)')]),
    ('12-fitreset', 'C12', [(C, '        self.brute_force = brute_force\n', '        self.brute_force = brute_force\n        self.hough_weight = None\n')]),
    ('12-numpix', 'C12', [(C, 'self.pixel_list = np.asarray(pixel_list)', 'self.pixel_list = np.asarray(pixel_list)\n            self.num_pix = len(pixel_list)')]),
    ('12-ransac-defaults', 'C12', [(C, "        candidate_weighted=None,\n        hough_weight=None,", "        candidate_weighted=None,\n        hough_weight=1.0,")]),
    ('12-synth', 'C12', [(S, 'new_max_wavelength = self.max_wavelength', 'new_max_wavelength = 1200.0')]),
    ('12-loglevel', 'C12', [(C, '''elif self.log_level is None:
            self.log_level = logging.getLevelName("WARNING")

        else:
            pass
''', '''else:
            self.log_level = logging.getLevelName("WARNING")
''')]),
    ('12-or', 'C12', [(C, '''        if top_n_candidate is not None:
            self.top_n_candidate = top_n_candidate

        elif self.top_n_candidate is None:
            self.top_n_candidate = 5

        else:
            pass
''', '''        self.top_n_candidate = top_n_candidate or self.top_n_candidate or 5
''')]),
    ('12r-helper', 'none', [(C, '''        if top_n_candidate is not None:
            self.top_n_candidate = top_n_candidate

        elif self.top_n_candidate is None:
            self.top_n_candidate = 5

        else:
            pass
''', '''        self._set("top_n_candidate", top_n_candidate, 5)
'''), (C, '    def set_ransac_properties(', '''    def _set(self, name, value, default):
        if value is not None:
            setattr(self, name, value)
        elif getattr(self, name) is None:
            setattr(self, name, default)

    def set_ransac_properties(''')]),
    ('12r-pick', 'none', [(C, '''        if top_n_candidate is not None:
            self.top_n_candidate = top_n_candidate

        elif self.top_n_candidate is None:
            self.top_n_candidate = 5

        else:
            pass
''', '''        self.top_n_candidate = self._pick(
            top_n_candidate, self.top_n_candidate, 5)
'''), (C, '    def set_ransac_properties(', '''    @staticmethod
    def _pick(value, current, default):
        for x in (value, current):
            if x is not None:
                return x
        return default

    def set_ransac_properties(''')]),
    ('12r-ternary', 'none', [(C, '''        if top_n_candidate is not None:
            self.top_n_candidate = top_n_candidate

        elif self.top_n_candidate is None:
            self.top_n_candidate = 5

        else:
            pass
''', '''        if top_n_candidate is None:
            top_n_candidate = 5 if self.top_n_candidate is None else self.top_n_candidate
        self.top_n_candidate = top_n_candidate
''')]),
    ('12r-loop', 'none', [(C, '''        if top_n_candidate is not None:
            self.top_n_candidate = top_n_candidate

        elif self.top_n_candidate is None:
            self.top_n_candidate = 5

        else:
            pass

        # Set linear
        if linear is not None:
            self.linear = linear

        elif self.linear is None:
            self.linear = True

        else:
            pass
''', '''        for name, value, default in (
            ("top_n_candidate", top_n_candidate, 5),
            ("linear", linear, True),
        ):
            if value is not None:
                setattr(self, name, value)
            elif getattr(self, name) is None:
                setattr(self, name, default)
''')]),
    ('12r-synth', 'none', [(S, '''            if max_wavelength is not None:
                new_max_wavelength = max_wavelength

            else:
                new_max_wavelength = self.max_wavelength
''', '''            new_max_wavelength = (
                self.max_wavelength if max_wavelength is None else max_wavelength
            )
''')]),
]
