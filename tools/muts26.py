C = 'calibrator.py'; H = 'houghtransform.py'
BM = '''        mask = (
            (gradients > self.min_slope)
            & (gradients < self.max_slope)
            & (intercepts > self.min_intercept)
            & (intercepts < self.max_intercept)
        )
        gradients = gradients[mask]
        intercepts = intercepts[mask]
'''
G1 = '''        intercepts = np.concatenate(y - np.outer(slopes, x))
        gradients = np.concatenate(np.column_stack([slopes] * len(x)))
'''
M1 = '''        mask = (self.min_intercept <= intercepts) & (
            intercepts <= self.max_intercept
        )
        intercepts = intercepts[mask]
        gradients = gradients[mask]
'''
BF = '''            gradient_tmp = (y[i + 1 :] - y[i]) / (x[i + 1 :] - x[i])
            intercept_tmp = y[i + 1 :] - gradient_tmp * x[i + 1 :]
'''
EDITS = [
    ('26-order', 'C26', [(H, 'np.concatenate(np.column_stack([slopes] * len(x)))', 'np.concatenate([slopes] * len(x))')]),
    ('26-tile', 'C26', [(H, G1, '''        intercepts = np.concatenate(y - np.outer(slopes, x))
        gradients = np.tile(slopes, len(x))
''')]),
    ('26-onecol', 'C26', [(H, M1, M1.replace('        gradients = gradients[mask]\n', '        gradients = gradients[: len(intercepts)]\n'))]),
    ('26-or', 'C26', [(H, BM, BM.replace('& (intercepts <', '| (intercepts <'))]),
    ('26-missing', 'C26', [(H, BM, BM.replace('            & (gradients < self.max_slope)\n', ''))]),
    ('26-twice', 'C26', [(H, BM, BM.replace('(gradients < self.max_slope)', '(gradients > self.max_slope)'))]),
    ('26-strictzero', 'C26', [(H, M1, M1.replace('self.min_intercept <= intercepts', 'np.maximum(self.min_intercept, 0) <= intercepts'))]),
    ('26-wrongpair', 'C26', [(H, BF, BF.replace('gradient_tmp * x[i + 1 :]', 'gradient_tmp * x[i]'))]),
    ('26-unsorty', 'C26', [(H, '        y = y[idx_sort]\n', '        y = np.sort(y)\n')]),
    ('26-unsort2', 'C26', [(H, '        x = x[idx_sort]\n        y = y[idx_sort]\n', '        x = x[idx_sort]\n')]),
    ('26-colswap', 'C26', [(H, '''        intercepts = intercepts[mask]
        gradients = gradients[mask]

        # Create an array of Hough Points
        self.hough_points = np.column_stack((gradients, intercepts))''', '''        intercepts = intercepts[mask]
        gradients = gradients[mask]

        # Create an array of Hough Points
        self.hough_points = np.column_stack((intercepts, gradients))''')]),
    ('26-replace', 'C26', [(H, 'self.hough_points = np.vstack((self.hough_points, points))', 'self.hough_points = np.vstack((points, points))')]),
    ('26-half', 'C26', [(H, 'ybin_width = (self.yedges[1] - self.yedges[0]) / 2', 'ybin_width = (self.xedges[1] - self.xedges[0]) / 2')]),
    ('26-lower', 'C26', [(H, 'xbin_width = (self.xedges[1] - self.xedges[0]) / 2', 'xbin_width = 0')]),
    ('26-full', 'C26', [(H, 'xbin_width = (self.xedges[1] - self.xedges[0]) / 2', 'xbin_width = self.xedges[1] - self.xedges[0]')]),
    ('26-asc', 'C26', [(H, 'np.argsort(self.hist.ravel())[::-1]', 'np.argsort(self.hist.ravel())')]),
    ('26-axis', 'C26', [(H, 'self.yedges[b[1]] + ybin_width', 'self.yedges[b[0]] + ybin_width')]),
    ('26-bins', 'C26', [(H, 'bins=(xbins, ybins)', 'bins=(ybins, xbins)')]),
    ('26-hand', 'C26', [(C, '''            self.min_slope,
            self.max_slope,
            self.min_intercept,
            self.max_intercept,
        )''', '''            self.min_slope,
            self.max_slope,
            self.min_wavelength,
            self.max_intercept,
        )''')]),
    ('26-late', 'C26', [(C, '''        # Generate the hough_points from the pairs
        self.ht.set_constraints(
            self.min_slope,
            self.max_slope,
            self.min_intercept,
            self.max_intercept,
        )
''', ''), (C, '''        self.ht.bin_hough_points(self.xbins, self.ybins)
''', '''        self.ht.set_constraints(
            self.min_slope,
            self.max_slope,
            self.min_intercept,
            self.max_intercept,
        )
        self.ht.bin_hough_points(self.xbins, self.ybins)
''')]),
    ('26-drop-first', 'C26', [(H, M1, M1 + '''        intercepts = intercepts[1:]
        gradients = gradients[1:]
''')]),
    ('26r-repeat', 'none', [(H, G1, '''        intercepts = (y - np.outer(slopes, x)).ravel()
        gradients = np.repeat(slopes, len(x))
''')]),
    ('26r-broad', 'none', [(H, G1, '''        intercepts = (y[None, :] - slopes[:, None] * x[None, :]).flatten()
        gradients = np.repeat(slopes, len(x))
''')]),
    ('26r-transposed', 'none', [(H, G1, '''        intercepts = (y[:, None] - np.outer(x, slopes)).ravel()
        gradients = np.tile(slopes, len(x))
''')]),
    ('26r-stack', 'none', [(H, M1, ''), (H, '''        # Create an array of Hough Points
        self.hough_points = np.column_stack((gradients, intercepts))

    def generate_hough_points_brute''', '''        points = np.column_stack((gradients, intercepts))
        mask = (points[:, 1] >= self.min_intercept) & (
            points[:, 1] <= self.max_intercept
        )
        self.hough_points = points[mask]

    def generate_hough_points_brute''')]),
    ('26r-other', 'none', [(H, BF, BF.replace('y[i + 1 :] - gradient_tmp * x[i + 1 :]', 'y[i] - gradient_tmp * x[i]'))]),
    ('26r-loop', 'none', [(H, G1, '''        intercepts = np.concatenate([y - s * x for s in slopes])
        gradients = np.concatenate([np.full(len(x), s) for s in slopes])
''')]),
    ('26r-and', 'none', [(H, BM, '''        mask = np.logical_and(gradients > self.min_slope, gradients < self.max_slope)
        mask &= intercepts > self.min_intercept
        mask &= intercepts < self.max_intercept
        gradients, intercepts = gradients[mask], intercepts[mask]
''')]),
    ('26r-two', 'none', [(H, BM, '''        mask = (gradients > self.min_slope) & (gradients < self.max_slope)
        gradients = gradients[mask]
        intercepts = intercepts[mask]
        mask = (intercepts > self.min_intercept) & (
            intercepts < self.max_intercept
        )
        gradients = gradients[mask]
        intercepts = intercepts[mask]
''')]),
    ('26r-centre', 'none', [(H, '''                    self.xedges[b[0]] + xbin_width,
                    self.yedges[b[1]] + ybin_width,''', '''                    (self.xedges[b[0]] + self.xedges[b[0] + 1]) / 2,
                    (self.yedges[b[1]] + self.yedges[b[1] + 1]) / 2,''')]),
    ('26r-neg', 'none', [(H, 'np.argsort(self.hist.ravel())[::-1]', 'np.argsort(-self.hist.ravel())')]),
    ('26r-vec', 'none', [(H, '''        lines = []

        for b in self.hist_sorted_arg:
            lines.append(
                (
                    self.xedges[b[0]] + xbin_width,
                    self.yedges[b[1]] + ybin_width,
                )
            )

        self.hough_lines = lines''', '''        self.hough_lines = [
            (self.xedges[i] + xbin_width, self.yedges[j] + ybin_width)
            for i, j in self.hist_sorted_arg
        ]''')]),
    ('26r-helper', 'none', [(H, M1, '''        gradients, intercepts = self._inside(gradients, intercepts)
'''), (H, '    def generate_hough_points(self', '''    def _inside(self, gradients, intercepts):
        mask = (self.min_intercept <= intercepts) & (
            intercepts <= self.max_intercept
        )
        return gradients[mask], intercepts[mask]

    def generate_hough_points(self''')]),
    ('26r-edges', 'none', [(H, '''        xbin_width = (self.xedges[1] - self.xedges[0]) / 2
        ybin_width = (self.yedges[1] - self.yedges[0]) / 2
''', '''        xbin_width = np.diff(self.xedges)[0] / 2
        ybin_width = np.diff(self.yedges)[0] / 2
''')]),
]
