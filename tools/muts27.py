S = 'synthetic.py'
M = 'models.py'
SM = '''            self.coefficients = coefficients
            self.degree = len(coefficients) - 1
            self.model = models.polynomial(a=coefficients, degree=self.degree)
'''
W1 = '''        wavelengths = wavelengths[wavelengths > self.min_wavelength]
        wavelengths = wavelengths[wavelengths < self.max_wavelength]
'''
GP = '''        # Constant function y = c
        if self.degree == 0:
            pixels = self.coefficients[0] * np.ones(len(wavelengths))
        # Linear function y = mx + c
        elif self.degree == 1:
            # x = (y - c) / m
            pixels = (wavelengths - self.coefficients[0]) / self.coefficients[
                1
            ]
        else:
            pixels = pynverse.inversefunc(self.model, wavelengths)
'''
PL = '''    def poly(x):
        t = a[-1]

        for i in range(1, int(degree + 1)):
            t += a[int(degree - i)] * x**i

        return t
'''
LIM = '''        # Check if Max > Min
        if new_max_wavelength > new_min_wavelength:
            self.min_wavelength = new_min_wavelength
            self.max_wavelength = new_max_wavelength
'''
EDITS = [
('27-b-nocoef', 'C27', [(S, SM, SM.replace('            self.coefficients = coefficients\n', ''))]),
('27-b-samelen', 'C27', [(S, SM, SM.replace('self.degree = len(coefficients) - 1\n            self.model = models.polynomial(a=coefficients, degree=self.degree)', 'if len(coefficients) - 1 != self.degree:\n                self.degree = len(coefficients) - 1\n                self.model = models.polynomial(a=coefficients, degree=self.degree)')),
  (S, '        if coefficients is not None:\n            self.coefficients', '        self.degree = None\n        if coefficients is not None:\n            self.coefficients')]),
('27-b-degree', 'C27', [(S, SM, SM.replace('len(coefficients) - 1', 'len(coefficients)').replace('degree=self.degree', 'degree=self.degree - 1'))]),
('27-b-cache', 'C27', [(S, 'pixels = pynverse.inversefunc(self.model, wavelengths)', '''if getattr(self, "_inverse", None) is None:
                self._inverse = self.model
            pixels = pynverse.inversefunc(self._inverse, wavelengths)''')]),
('27-b-keepfirst', 'C27', [(S, SM, SM.replace('self.model = models', 'if self.model is None or self.degree > 1:\n                self.model = models')),
  (S, '        # Default is approx', '        self.model = None\n        # Default is approx')]),
('27-b-ge', 'C27', [(S, W1, W1.replace('> self.min', '>= self.min'))]),
('27-b-nomax', 'C27', [(S, W1, W1.split('\n')[0] + '\n')]),
('27-b-unaligned', 'C27', [(S, W1, W1.replace('        wavelengths = wavelengths[wavelengths > self.min_wavelength]\n', '        asked = wavelengths\n        wavelengths = wavelengths[wavelengths > self.min_wavelength]\n')),
  (S, 'inversefunc(self.model, wavelengths)', 'inversefunc(self.model, np.sort(wavelengths))')]),
('27-b-maskorder', 'C27', [(S, W1, '''        keep = wavelengths > self.min_wavelength
        wavelengths = wavelengths[keep]
        wavelengths = wavelengths[wavelengths < self.max_wavelength]
        keep = wavelengths > self.min_wavelength + 1
''')  , (S, '        return pixels, wavelengths', '        return pixels[keep], wavelengths[keep]')]),
('27-b-minonly', 'C27', [(S, LIM, LIM.replace('            self.max_wavelength = new_max_wavelength\n', '            if min_wavelength is None:\n                self.max_wavelength = new_max_wavelength\n'))]),
('27-b-early', 'C27', [(S, '                new_min_wavelength = min_wavelength\n', '                new_min_wavelength = self.min_wavelength = min_wavelength\n')]),
('27-b-swapnone', 'C27', [(S, '                new_max_wavelength = self.max_wavelength', '                new_max_wavelength = 1200.0')]),
('27-b-poly', 'C27', [(M, 'range(1, int(degree + 1))', 'range(1, max(int(degree), 2))')]),
('27-b-poly2', 'C27', [(M, 't = a[-1]', 't = a[0]')]),
('27-b-linear', 'C27', [(S, 'pixels = (wavelengths - self.coefficients[0]) / self.coefficients[\n                1\n            ]', 'pixels = (wavelengths - self.coefficients[1]) / self.coefficients[0]')]),
('27-b-linconst', 'C27', [(S, '(wavelengths - self.coefficients[0])', '(wavelengths - self.coefficients[1])')]),
('27-b-askset', 'C27', [(S, '        # Constant function y = c', '        if len(wavelengths) == 0:\n            self.min_wavelength = self.max_wavelength / 2\n        # Constant function y = c')]),
('27-b-filterpix', 'C27', [(S, '        return pixels, wavelengths', '        return pixels[pixels >= 0], wavelengths')]),
# kept
('27-r-and', 'none', [(S, W1, '''        inside = (wavelengths > self.min_wavelength) & (
            wavelengths < self.max_wavelength
        )
        wavelengths = wavelengths[inside]
''')]),
('27-r-helper', 'none', [(S, W1, '        wavelengths = self._inside(wavelengths)\n'), (S, '    def get_pixels(self', '''    def _inside(self, w):
        w = w[self.min_wavelength < w]
        return w[np.less(w, self.max_wavelength)]

    def get_pixels(self''')]),
('27-r-horner', 'none', [(M, PL, '''    def poly(x):
        t = 0.0
        for c in a:
            t = t * x + c
        return t
''')]),
('27-r-sum', 'none', [(M, PL, '''    def poly(x):
        return sum(a[degree - i] * x**i for i in range(degree + 1))
''')]),
('27-r-polyval', 'none', [(M, PL, '''    def poly(x):
        return np.polyval(a, x)
''')]),
('27-r-local', 'none', [(S, SM, '''            degree = len(coefficients) - 1
            model = models.polynomial(coefficients, degree)
            self.coefficients, self.degree, self.model = (
                coefficients, degree, model)
''')]),
('27-r-guard', 'none', [(S, GP, '''        if self.degree > 1:
            pixels = pynverse.inversefunc(self.model, wavelengths)
        elif self.degree == 1:
            c, m = self.coefficients
            pixels = wavelengths / m - c / m
        else:
            pixels = np.full(len(wavelengths), self.coefficients[0])
''')]),
('27-r-limits', 'none', [(S, LIM, '''        if not new_max_wavelength > new_min_wavelength:
            raise RuntimeError("Minimum wavelength cannot be larger.")
        self.min_wavelength, self.max_wavelength = (
            new_min_wavelength, new_max_wavelength)
        if new_max_wavelength > new_min_wavelength:
            pass
''')]),
('27-r-lambda', 'none', [(S, SM, SM.replace('models.polynomial(a=coefficients, degree=self.degree)', 'lambda x: models.polynomial(self.coefficients, self.degree)(x)'))]),
]
