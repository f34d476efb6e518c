C = 'calibrator.py'; H = 'houghtransform.py'; S = 'synthetic.py'; A = 'atlas.py'; U = 'util.py'; P = 'plotting.py'; M = 'models.py'
EDITS = [
    ('28-rename-ht', 'C28', [(H, '''    def load(self, filename="hough_transform", filetype="npy"):''', '''    def load(self, filename="hough_transform", fileformat="npy"):
        filetype = fileformat''')]),
    ('28-short-return', 'C28', [(C, 'return (best_p, best_err, sum(best_mask), 0, False)', 'return (best_p, best_err, 0, False)')]),
    ('28-min-args', 'C28', [(M, 'args=(x_n, y_n, degree),', 'args=(x_n, y_n),')]),
    ('28-required', 'C28', [(C, '''    def _merge_candidates(self, candidates):''', '''    def _merge_candidates(self, candidates, by):'''), (C, 'def _generate_pairs(self):', 'def _generate_pairs(self, tolerance):'), (C, '''        self.constrain_poly = constrain_poly

        # Create a list of all possible pairs of detected peaks and lines
        # from atlas
        self._generate_pairs()''', '''        self.constrain_poly = constrain_poly

        # Create a list of all possible pairs of detected peaks and lines
        # from atlas
        self._generate_pairs(candidate_tolerance)''')]),
    ('28-example-opt', 'C28', [(C, '''        plot_atlas=True,
        log_spectrum=False,
        save_fig=False,
        fig_type="png",
        filename=None,
        return_jsonstring=False,
        renderer="default",
        display=True,
    ):''', '''        show_atlas=True,
        log_spectrum=False,
        save_fig=False,
        fig_type="png",
        filename=None,
        return_jsonstring=False,
        renderer="default",
        display=True,
    ):
        plot_atlas = show_atlas''')]),
    ('28-vp', 'C28', [(U, '''    vapour_partial_pressure = get_vapour_partial_pressure(
        relative_humidity, vapour_pressure
    )
''', '''    vapour_partial_pressure = get_vapour_partial_pressure(
        relative_humidity
    )
''')]),
    ('28-pkg', 'C18', [('__init__.py', 'from pkg', '# from pkg')]),
    ('28-pkg2', 'C28', [('__init__.py', 'from . import util', 'from . import utils')]),
    ('28-all', 'C28', [('__init__.py', 'from . import util', 'from . import util'),('__init__.py', '    "models",', '    "model",')]),
    ('28-util-name', 'C28', [(U, 'def refine_peaks(', 'def refine_peak_positions(')]),
    ('28-adjust', 'C28', [(C, '    def _adjust_polyfit(self, delta, fit, tolerance, min_frac):', '    def _adjust_polyfit(self, delta, fit, tolerance, min_frac, lines):')]),
    ('28r-kwargs', 'none', [(H, '''    def load(self, filename="hough_transform", filetype="npy"):''', '''    def load(self, filename="hough_transform", filetype="npy", **options):''')]),
    ('28r-opt', 'none', [(H, '''    def load(self, filename="hough_transform", filetype="npy"):''', '''    def load(self, filename="hough_transform", filetype="npy", mmap=None):''')]),
    ('28r-star', 'none', [(C, 'self.ht.load(filename=filename, filetype=filetype)', 'args = (filename, filetype)\n        self.ht.load(*args)')]),
    ('28r-dict', 'none', [(C, 'self.ht.load(filename=filename, filetype=filetype)', 'args = {"filename": filename, "filetype": filetype}\n        self.ht.load(**args)')]),
]
