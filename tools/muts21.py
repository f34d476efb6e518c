C = 'calibrator.py'; H = 'houghtransform.py'; S = 'synthetic.py'; A = 'atlas.py'; U = 'util.py'; P = 'plotting.py'
EDITS = [
    ('21-swap-val', 'C21', [(C, 'self.polyval = np.polynomial.chebyshev.chebval', 'self.polyval = np.polynomial.legendre.legval')]),
    ('21-else-poly', 'C21', [(C, '''        else:
            raise ValueError(
                "fit_type must be''', '''        elif not isinstance(fit_type, str):
            raise ValueError(
                "fit_type must be''')]),
    ('21-prefix', 'C21', [(C, 'elif fit_type == "chebyshev":', 'elif fit_type.startswith("cheb"):')]),
    ('21-keep', 'C21', [(C, '''        if fit_type == "poly":
            self.polyfit = np.polynomial.polynomial.polyfit
            self.polyval = np.polynomial.polynomial.polyval
''', '''        if fit_type == "poly":
            pass
''')]),
    ('21-json-sub', 'C21', [(H, 'if not set(fileformat_split) <= {"npy", "json"}:', 'if not set(fileformat_split) & {"npy", "json"}:')]),
    ('21-json-substr', 'C21', [(H, 'if "npy" in fileformat_split:', 'if "npy" in fileformat_split[0]:')]),
    ('21-load-else', 'C21', [(H, 'elif filetype == "json":', 'elif filetype.endswith("json"):')]),
    ('21-load-warn', 'C21', [(H, '''            raise ValueError(
                "Unknown filetype''', '''            print(
                "Unknown filetype''')]),
    ('21-nist-case', 'C21', [(U, 'if linelist.lower() == "nist":', 'if linelist == "nist":')]),
    ('21-exists', 'C21', [(U, '''        elif os.path.exists(linelist):
            lines = np.loadtxt(linelist, delimiter=",", dtype=str, ndmin=2)
        else:
            raise''', '''        elif os.path.exists(linelist):
            lines = np.loadtxt(linelist, delimiter=",", dtype=str, ndmin=2)
        elif elements:
            lines = np.loadtxt(file_path_default(), delimiter=",", dtype=str, ndmin=2)
        else:
            raise'''), (U, '''def load_calibration_lines(''', '''def file_path_default():
    return pkg_resources.resource_filename(
        "rascal", "arc_lines/nist_clean.csv"
    )


def load_calibration_lines(''')]),
    ('21-model-tuple', 'C21', [(S, '''        if isinstance(coefficients, (list, np.ndarray)):''', '''        if hasattr(coefficients, "__len__"):''')]),
    ('21-pixels-any', 'C21', [(S, '''        if not isinstance(wavelengths, (list, np.ndarray)):
            raise TypeError("Please provide a list or an numpy array.")
''', '')]),
    ('21-hp-else', 'C21', [(H, '''        elif isinstance(hp, np.ndarray):
            points = hp

        else:
            raise TypeError("Unsupported type for extending hough points.")
''', '''        else:
            points = np.asarray(hp)
''')]),
    ('21-lib-both', 'C21', [(C, '''        self.plot_with_plotly = True
        self.plot_with_matplotlib = False
''', '''        self.plot_with_plotly = True
''')]),
    ('21-lib-forget', 'C21', [(C, '''        if self.plotting_library == "matplotlib":
            self.use_matplotlib()''', '''        if plotting_library == "matplotlib":
            self.use_matplotlib()''')]),
    ('21-plt-in-plotly', 'C21', [(P, '''    if calibrator.plot_with_plotly:
        _import_plotly()
''', '''    if calibrator.plot_with_plotly:
        _import_matplotlib()
        _import_plotly()
        plt.figure()
''')]),
    ('21-minint-array', 'C21', [(U, 'elif isinstance(min_intensity, (list, np.ndarray)):', 'elif isinstance(min_intensity, list):')]),
    ('21r-table', 'none', [(C, '''        if fit_type == "poly":
            self.polyfit = np.polynomial.polynomial.polyfit
            self.polyval = np.polynomial.polynomial.polyval

        elif fit_type == "legendre":
            self.polyfit = np.polynomial.legendre.legfit
            self.polyval = np.polynomial.legendre.legval

        elif fit_type == "chebyshev":
            self.polyfit = np.polynomial.chebyshev.chebfit
            self.polyval = np.polynomial.chebyshev.chebval

        else:
            raise ValueError(
                "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
            )
''', '''        families = {
            "poly": (
                np.polynomial.polynomial.polyfit,
                np.polynomial.polynomial.polyval,
            ),
            "legendre": (
                np.polynomial.legendre.legfit,
                np.polynomial.legendre.legval,
            ),
            "chebyshev": (
                np.polynomial.chebyshev.chebfit,
                np.polynomial.chebyshev.chebval,
            ),
        }
        if fit_type not in families:
            raise ValueError(
                "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
            )
        self.polyfit, self.polyval = families[fit_type]
''')]),
    ('21r-loop', 'none', [(H, '''        if not set(fileformat_split) <= {"npy", "json"}:
            raise ValueError(
                "Unknown fileformat %s, choose from npy and json" % fileformat
            )
''', '''        for fmt in fileformat_split:
            if fmt not in ("npy", "json"):
                raise ValueError(
                    "Unknown fileformat %s, choose from npy and json"
                    % fileformat
                )
''')]),
    ('21r-any', 'none', [(H, '''        if not set(fileformat_split) <= {"npy", "json"}:''', '''        if any(f not in {"npy", "json"} for f in fileformat_split):''')]),
    ('21r-guard', 'none', [(U, '''    if isinstance(linelist, str):
        if linelist.lower() == "nist":
            file_path = pkg_resources.resource_filename(
                "rascal", "arc_lines/nist_clean.csv"
            )
            lines = np.loadtxt(file_path, delimiter=",", dtype=str, ndmin=2)
        elif os.path.exists(linelist):
            lines = np.loadtxt(linelist, delimiter=",", dtype=str, ndmin=2)
        else:
            raise ValueError(
                f"Unknown string is provided as linelist: {linelist}."
            )
    else:
        raise ValueError("Please provide a valid format of line list.")
''', '''    if not isinstance(linelist, str):
        raise ValueError("Please provide a valid format of line list.")

    file_path = linelist
    if linelist.lower() == "nist":
        file_path = pkg_resources.resource_filename(
            "rascal", "arc_lines/nist_clean.csv"
        )
    elif not os.path.exists(linelist):
        raise ValueError(
            f"Unknown string is provided as linelist: {linelist}."
        )
    lines = np.loadtxt(file_path, delimiter=",", dtype=str, ndmin=2)
''')]),
    ('21r-flags', 'none', [(C, '''        self.plotting_library = "plotly"
        self.plot_with_plotly = True
        self.plot_with_matplotlib = False
''', '''        self._use("plotly")
'''), (C, '''        self.plotting_library = "matplotlib"
        self.plot_with_matplotlib = True
        self.plot_with_plotly = False
''', '''        self._use("matplotlib")
'''), (C, '''    def use_plotly(self):''', '''    def _use(self, library):
        self.plotting_library = library
        self.plot_with_matplotlib = library == "matplotlib"
        self.plot_with_plotly = library == "plotly"

    def use_plotly(self):''')]),
]
