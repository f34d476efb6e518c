C = 'calibrator.py'
PMX = """                    (
                        self.pixel_list.max(),
                        self.max_wavelength
                        - self.range_tolerance
                        - self.candidate_tolerance,
                    ),
                    (
                        self.pixel_list.max(),
                        self.max_wavelength
                        + self.range_tolerance
                        + self.candidate_tolerance,
                    ),
"""
EDITS = [
    ('13-stale-order', 'C13', [(C, '''        # Start wavelength in the spectrum, +/- some tolerance
        self.min_intercept = self.min_wavelength - self.range_tolerance
        self.max_intercept = self.min_wavelength + self.range_tolerance

''', ''), (C, '''        # Set the range_tolerance
''', '''        # Start wavelength in the spectrum, +/- some tolerance
        if self.range_tolerance is not None:
            self.min_intercept = self.min_wavelength - self.range_tolerance
            self.max_intercept = self.min_wavelength + self.range_tolerance

        # Set the range_tolerance
'''), (C, '''            self.range_tolerance = 500
''', '''            self.range_tolerance = 500
            self.min_intercept = self.min_wavelength - self.range_tolerance
            self.max_intercept = self.min_wavelength + self.range_tolerance
''')]),
    ('13-ptp-len', 'C13', [(C, ') / np.ptp(self.pixel_list)', ') / len(self.pixel_list)')]),
    ('13-ptp-numpix', 'C13', [(C, ') / np.ptp(self.pixel_list)', ') / self.num_pix')]),
    ('13-cond', 'C13', [(C, '''        self.min_slope = (
            (
                self.max''', '''        if max_wavelength is None and self.candidates is not None:
            return
        self.min_slope = (
            (
                self.max''')]),
    ('13-pairs-cond', 'C13', [(C, '''        if self.atlas is not None:
            self._generate_pairs()
''', '''        if self.atlas is not None and self.pairs is None:
            self._generate_pairs()
''')]),
    ('13-pairs-early', 'C13', [(C, '''        self.atlas = atlas

        self.candidate_tolerance = candidate_tolerance
        self.constrain_poly = constrain_poly

''', '''        self.atlas = atlas
        self._generate_pairs()

        self.candidate_tolerance = candidate_tolerance
        self.constrain_poly = constrain_poly
        return

''')]),
    ('13-constraints-const', 'C13', [(C, '''            self.min_slope,
            self.max_slope,
            self.min_intercept,
            self.max_intercept,
        )

        if brute_force''', '''            self.min_slope,
            self.max_slope,
            self.max_intercept,
            self.min_intercept,
        )

        if brute_force''')]),
    ('13-list-len', 'C13', [(C, "self.pixel_list = np.asarray(pixel_list)", "self.pixel_list = np.arange(len(pixel_list))")]),
    ('13-peaks-trunc', 'C13', [(C, "for pair in itertools.product(self.peaks, self.atlas.get_lines())", "for pair in itertools.product(self.peaks, self.atlas.get_lines()) if pair[1] > self.min_wavelength")]),
    ('13r-minmax', 'none', [(C, ') / np.ptp(self.pixel_list)', ') / (np.max(self.pixel_list) - np.min(self.pixel_list))')]),
    ('13r-local', 'none', [(C, '''        self.min_slope = (
            (
                self.max_wavelength
                - self.range_tolerance
                - self.linearity_tolerance
            )
            - (
                self.min_intercept
                + self.range_tolerance
                + self.linearity_tolerance
            )
        ) / np.ptp(self.pixel_list)
''', '''        margin = self.range_tolerance + self.linearity_tolerance
        length = np.ptp(self.pixel_list)
        self.min_slope = (self.max_wavelength - self.min_intercept - 2 * margin) / length
''')]),
    ('13r-helper', 'none', [(C, '''        # Start wavelength in the spectrum, +/- some tolerance
        self.min_intercept = self.min_wavelength - self.range_tolerance
        self.max_intercept = self.min_wavelength + self.range_tolerance
''', '''        self._update_intercepts()
'''), (C, '    def set_ransac_properties(', '''    def _update_intercepts(self):
        self.min_intercept, self.max_intercept = (
            self.min_wavelength - self.range_tolerance,
            self.min_wavelength + self.range_tolerance,
        )

    def set_ransac_properties(''')]),
    ('13r-pairs', 'none', [(C, '''        pairs = [
            pair
            for pair in itertools.product(self.peaks, self.atlas.get_lines())
        ]
''', '''        pairs = []
        for peak in self.peaks:
            for line in self.atlas.get_lines():
                pairs.append((peak, line))
''')]),
    ('13r-pairs2', 'none', [(C, '''        pairs = [
            pair
            for pair in itertools.product(self.peaks, self.atlas.get_lines())
        ]
''', '''        pairs = list(itertools.product(self.peaks, self.atlas.get_lines()))
''')]),
    ('13r-ptpm', 'none', [(C, ') / np.ptp(self.pixel_list)', ') / (self.pixel_list.max() - self.pixel_list.min())')]),
 ('13p-sum', 'C13', [(C, PMX, PMX.replace('self.pixel_list.max()', 'self.pixel_list.sum()', 1))]),
 ('13p-len', 'C13', [(C, PMX, PMX.replace('self.pixel_list.max()', 'len(self.pixel_list)'))]),
 ('13p-tol', 'C13', [(C, PMX, PMX.replace('- self.candidate_tolerance', '+ self.candidate_tolerance'))]),
 ('13p-range', 'C13', [(C, PMX, PMX.replace('- self.range_tolerance', '- self.linearity_tolerance'))]),
 ('13p-int', 'C13', [(C, '(0, self.min_intercept - self.candidate_tolerance),', '(0, self.min_wavelength - self.candidate_tolerance),')]),
 ('13p-strict', 'C13', [(C, 'valid_area.find_simplex(pairs) >= 0', 'valid_area.find_simplex(pairs) > 0')]),
 ('13p-all', 'C13', [(C, 'valid_area.find_simplex(pairs) >= 0', 'valid_area.find_simplex(pairs) >= -1')]),
 ('13px-ne', 'none', [(C, 'valid_area.find_simplex(pairs) >= 0', 'valid_area.find_simplex(pairs) != -1')]),
 ('13px-gt', 'none', [(C, 'valid_area.find_simplex(pairs) >= 0', 'valid_area.find_simplex(pairs) > -1')]),
 ('13px-int', 'none', [(C, '(0, self.min_intercept - self.candidate_tolerance),', '(0, self.min_wavelength - self.range_tolerance - self.candidate_tolerance),')]),
 ('13px-var', 'none', [(C, '            valid_area = Delaunay(', '            last = np.max(self.pixel_list)\n            valid_area = Delaunay('), (C, PMX, PMX.replace('self.pixel_list.max()', 'last'))]),
 ('13d-min', 'C13', [(C, 'max_atlas_wavelength = self.max_wavelength + self.range_tolerance', 'max_atlas_wavelength = self.min_wavelength + self.range_tolerance')]),
 ('13d-tol', 'C13', [(C, 'max_atlas_wavelength = self.max_wavelength + self.range_tolerance', 'max_atlas_wavelength = self.max_wavelength')]),
]
