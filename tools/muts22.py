C = 'calibrator.py'; H = 'houghtransform.py'; S = 'synthetic.py'; A = 'atlas.py'
STORE = '''        self.min_slope = min_slope
        self.max_slope = max_slope
        self.min_intercept = min_intercept
        self.max_intercept = max_intercept
'''
EDITS = [
    ('22-store-first', 'C22', [(H, STORE, ''), (H, '''        assert np.isfinite(max_intercept), (''', STORE + '''
        assert np.isfinite(max_intercept), (''')]),
    ('22-nan-only', 'C22', [(H, 'assert np.isfinite(max_slope), (', 'assert not np.isnan(max_slope), (')]),
    ('22-wrong-var', 'C22', [(H, 'assert np.isfinite(max_intercept), (', 'assert np.isfinite(min_intercept), (')]),
    ('22-limit-first', 'C22', [(S, '''                new_min_wavelength = min_wavelength
''', '''                new_min_wavelength = min_wavelength
                self.min_wavelength = min_wavelength
''')]),
    ('22-limit-ge', 'C22', [(S, 'if new_max_wavelength > new_min_wavelength:', 'if new_max_wavelength >= new_min_wavelength:')]),
    ('22-limit-old', 'C22', [(S, 'if new_max_wavelength > new_min_wavelength:', 'if max_wavelength is None or new_max_wavelength > new_min_wavelength:')]),
    ('22-pairs-first', 'C22', [(C, '''        if not all(
            isinstance(p, (float, int)) & (not np.isnan(p)) for p in pix
''', '''        self.pix_known = pix
        if not all(
            isinstance(p, (float, int)) & (not np.isnan(p)) for p in pix
''')]),
    ('22-pairs-any', 'C22', [(C, '''        if not all(
            isinstance(w, (float, int)) & (not np.isnan(w)) for w in wave
''', '''        if not any(
            isinstance(w, (float, int)) & (not np.isnan(w)) for w in wave
''')]),
    ('22-pairs-or', 'C22', [(C, '''            isinstance(w, (float, int)) & (not np.isnan(w)) for w in wave
''', '''            isinstance(w, (float, int)) | (not np.isnan(w)) for w in wave
''')]),
    ('22-pairs-tail', 'C22', [(C, '''            isinstance(w, (float, int)) & (not np.isnan(w)) for w in wave
''', '''            isinstance(w, (float, int)) & (not np.isnan(w)) for w in wave[1:]
''')]),
    ('22-pairs-len', 'C22', [(C, 'assert pix.size == wave.size, ValueError(', 'assert pix.size <= wave.size, ValueError(')]),
    ('22-matches', 'C22', [(C, '''            assert minimum_matches > 0
            self.minimum_matches = minimum_matches
''', '''            self.minimum_matches = minimum_matches
            assert self.minimum_matches > 0
''')]),
    ('22-util', 'C22', [(C, '''                minimum_peak_utilisation >= 0
                and minimum''', '''                minimum_peak_utilisation >= 0
                or minimum''')]),
    ('22-fiterr', 'C22', [(C, 'assert minimum_fit_error >= 0', 'assert minimum_fit_error >= 0 or minimum_peak_utilisation')]),
    ('22-user-first', 'C22', [(A, '''        assert len(elements) == len(wavelengths), ValueError(''', '''        self.min_atlas_wavelength = min(wavelengths)
        assert len(elements) == len(wavelengths), ValueError(''')]),
    ('22-user-int', 'C22', [(A, 'assert len(elements) == len(intensities), ValueError(', 'assert len(intensities) > 0, ValueError(')]),
    ('22-add-finite', 'C22', [(A, 'if not np.isfinite(max_atlas_wavelength):', 'if np.isnan(max_atlas_wavelength):')]),
    ('22-fit-type', 'C22', [(C, '''        self.brute_force = brute_force
        self.progress''', '''        self.fit_type = fit_type
        self.brute_force = brute_force
        self.progress''')]),
    ('22-model', 'C22', [(S, '''        if isinstance(coefficients, (list, np.ndarray)):
            self.coefficients = coefficients
''', '''        self.coefficients = coefficients
        if isinstance(coefficients, (list, np.ndarray)):
''')]),
    ('22r-loop', 'none', [(H, '''        assert np.isfinite(min_slope), (
            "min_slope has to be finite, %s is given " % min_slope
        )
        assert np.isfinite(max_slope), (
            "max_slope has to be finite, %s is given " % max_slope
        )
        assert np.isfinite(min_intercept), (
            "min_intercept has to be finite, %s is given " % min_intercept
        )
        assert np.isfinite(max_intercept), (
            "max_intercept has to be finite, %s is given " % max_intercept
        )
''', '''        for name, value in (
            ("min_slope", min_slope),
            ("max_slope", max_slope),
            ("min_intercept", min_intercept),
            ("max_intercept", max_intercept),
        ):
            assert np.isfinite(value), (
                "%s has to be finite, %s is given " % (name, value)
            )
''')]),
    ('22r-any', 'none', [(C, '''        if not all(
            isinstance(p, (float, int)) & (not np.isnan(p)) for p in pix
        ):''', '''        if np.isnan(pix).any():''')]),
    ('22r-any2', 'none', [(C, '''        if not all(
            isinstance(p, (float, int)) & (not np.isnan(p)) for p in pix
        ):''', '''        if any(
            not isinstance(p, (float, int)) or np.isnan(p) for p in pix
        ):''')]),
    ('22r-helper', 'none', [(C, '''        if not all(
            isinstance(p, (float, int)) & (not np.isnan(p)) for p in pix
        ):
            raise ValueError("All pix elements have to be numeric.")

        if not all(
            isinstance(w, (float, int)) & (not np.isnan(w)) for w in wave
        ):
            raise ValueError("All wave elements have to be numeric.")
''', '''        self._check_numeric(pix, "pix")
        self._check_numeric(wave, "wave")
'''), (C, '''    def set_known_pairs(''', '''    @staticmethod
    def _check_numeric(values, name):
        for v in values:
            if not isinstance(v, (float, int)) or np.isnan(v):
                raise ValueError(
                    "All %s elements have to be numeric." % name
                )

    def set_known_pairs(''')]),
    ('22r-restore', 'none', [(S, '''        if new_max_wavelength > new_min_wavelength:
            self.min_wavelength = new_min_wavelength
            self.max_wavelength = new_max_wavelength

        else:
            raise''', '''        old = (
            getattr(self, "min_wavelength", None),
            getattr(self, "max_wavelength", None),
        )
        self.min_wavelength = new_min_wavelength
        self.max_wavelength = new_max_wavelength
        if self.max_wavelength <= self.min_wavelength:
            self.min_wavelength, self.max_wavelength = old
            raise''')]),
    ('22r-chain', 'none', [(C, '''            assert (
                minimum_peak_utilisation >= 0
                and minimum_peak_utilisation <= 1.0
            )
''', '''            if not 0 <= minimum_peak_utilisation <= 1.0:
                raise AssertionError
''')]),
]
