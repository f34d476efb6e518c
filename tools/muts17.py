C, M, P, U = 'calibrator.py', 'models.py', 'plotting.py', 'util.py'
LEG = '''            self.polyfit = np.polynomial.legendre.legfit
            self.polyval = np.polynomial.legendre.legval
'''
CHEB = '''            self.polyfit = np.polynomial.chebyshev.chebfit
            self.polyval = np.polynomial.chebyshev.chebval
'''
FAM = '''        if fit_type == "poly":
            self.polyfit = np.polynomial.polynomial.polyfit
            self.polyval = np.polynomial.polynomial.polyval

        elif fit_type == "legendre":
''' + LEG + '''
        elif fit_type == "chebyshev":
''' + CHEB + '''
        else:
            raise ValueError(
                "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
            )
'''
DER = '''    derv = []
    for i in range(1, len(p)):
        derv.append(i * p[i])
    return derv
'''
SCALE = '''    for i in range(0, degree):
        p[i] /= x.std() ** (degree - i)

    return p[::-1]
'''
START = '''        p_init = np.array(p_init, dtype=float)[::-1]

        for i in range(0, degree):
            p_init[i] *= x.std() ** (degree - i)

        p_init /= y.std()
'''
POLY = '''        t = a[-1]

        for i in range(1, int(degree + 1)):
            t += a[int(degree - i)] * x**i

        return t
'''
GRAD = '''                gradient = self.polyval(
                    self.pixel_list, _derivative(fit_coeffs)
                )
'''
ADJ = '''        for i, d in enumerate(delta):
            fit_new[i] += d
'''
ADJ2 = '''            for i, d in enumerate(fitted_delta):
                fit_coeff_new[i] += d
'''
ICPT = '''                if (fit_coeffs[0] < self.min_intercept) | (
                    fit_coeffs[0] > self.max_intercept
'''
EDITS = [
('17-b-legcheb', 'C17', [(C, LEG, LEG.replace('legendre.legfit', 'chebyshev.chebfit'))]),
('17-b-chebpoly', 'C17', [(C, CHEB, CHEB.replace('chebyshev.chebval', 'polynomial.polyval'))]),
('17-b-highest', 'C17', [(C, '            self.polyfit = np.polynomial.polynomial.polyfit\n            self.polyval = np.polynomial.polynomial.polyval\n\n        elif', '            self.polyfit = np.polyfit\n            self.polyval = np.polynomial.polynomial.polyval\n\n        elif')]),
('17-b-stale', 'C17', [(C, FAM, '''        if fit_type not in ["poly", "legendre", "chebyshev"]:
            raise ValueError(
                "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
            )

        if fit_type == "legendre":
''' + LEG + '''
        elif fit_type == "chebyshev":
''' + CHEB)]),
('17-b-swap', 'C17', [(C, 'residuals = best_atlas - self.polyval(matched_peaks, fit_coeff)', 'residuals = best_atlas - self.polyval(fit_coeff, matched_peaks)')]),
('17-b-unrev', 'C17', [(M, '    return p[::-1]\n', '    return p\n')]),
('17-b-scale', 'C17', [(M, '        p[i] /= x.std() ** (degree - i)', '        p[i] /= x.std() ** i')]),
('17-b-scale2', 'C17', [(M, SCALE, SCALE.replace('degree):', 'degree - 1):'))]),
('17-b-yscale', 'C17', [(M, '    p *= y.std()\n', '    p *= x.std()\n')]),
('17-b-start', 'C17', [(M, START, START.replace(')[::-1]', ')'))]),
('17-b-startscale', 'C17', [(M, START, START.replace('(degree - i)', 'i'))]),
('17-b-starty', 'C17', [(M, START, START.replace('/=', '*='))]),
('17-b-model', 'C17', [(M, POLY, POLY.replace('x**i', 'x**(i + 1)'))]),
('17-b-modelorder', 'C17', [(M, POLY, POLY.replace('a[-1]', 'a[0]').replace('int(degree - i)', 'i'))]),
('17-b-norm', 'C17', [(M, '    x_norm = x / x_scale', '    x_norm = (x - x.mean()) / x_scale')]),
('17-b-npval', 'C17', [(C, '            x = self.polyval(p, fit_coeff)\n            diff', '            x = np.polyval(fit_coeff, p)\n            diff')]),
('17-b-powerval', 'C17', [(C, '            x = self.polyval(p, fit_coeff)\n            diff', '            x = np.polynomial.polynomial.polyval(p, fit_coeff)\n            diff')]),
('17-b-plot', 'C17', [(P, '    wave = calibrator.polyval(calibrator.pixel_list, fit_coeff)', '    wave = np.polynomial.polynomial.polyval(calibrator.pixel_list, fit_coeff)')]),
('17-b-plot1d', 'C17', [(P, '    wave = calibrator.polyval(calibrator.pixel_list, fit_coeff)', '    wave = np.poly1d(fit_coeff)(calibrator.pixel_list)')]),
('17-b-deriv', 'C17', [(U, '        derv.append(i * p[i])', '        derv.append((i - 1) * p[i])')]),
('17-b-deriv2', 'C17', [(U, '        derv.append(i * p[i])', '        derv.append(i * p[i - 1])')]),
('17-b-deriv3', 'C17', [(U, DER, DER.replace('range(1, len(p))', 'range(0, len(p))'))]),
('17-b-deriv4', 'C17', [(U, '        derv.append(i * p[i])', '        derv.append(i * p[-i])')]),
('17-b-polyder', 'C17', [(C, '_derivative(fit_coeffs)', 'np.polyder(fit_coeffs)')]),
('17-b-icpt', 'C17', [(C, ICPT, ICPT.replace('[0]', '[-1]'))]),
('17-b-refitfit', 'C17', [(C, '            candidate_coeff = self.polyfit(\n', '            candidate_coeff = np.polyfit(\n')]),
('17-b-keep', 'C17', [(C, '        self.fit_coeff = fit_coeff_new\n', '        self.fit_coeff = fit_coeff_new[::-1]\n')]),
('17-b-keepfit', 'C17', [(C, 'models.robust_polyfit(x, y, degree, x0)', 'np.polyfit(x, y, degree)')]),
('17-b-adj', 'C17', [(C, ADJ, ADJ.replace('fit_new[i]', 'fit_new[-i - 1]'))]),
('17-b-adj2', 'C17', [(C, ADJ2, ADJ2.replace('+= d', '-= d'))]),
('17-b-adj3', 'C17', [(C, ADJ2, ADJ2.replace('fit_coeff_new[i]', 'fit_coeff_new[i + len(fit_coeff_new) - len(fitted_delta)]'))]),
('17-b-adj4', 'C17', [(C, ADJ, ADJ.replace('fit_new[i] += d', 'fit_new[i] *= 1 + d'))]),
('17-r-dict', 'none', [(C, FAM, '''        families = {
            "poly": (np.polynomial.polynomial.polyfit, np.polynomial.polynomial.polyval),
            "legendre": (np.polynomial.legendre.legfit, np.polynomial.legendre.legval),
            "chebyshev": (np.polynomial.chebyshev.chebfit, np.polynomial.chebyshev.chebval),
        }
        if fit_type not in families:
            raise ValueError(
                "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
            )
        self.polyfit, self.polyval = families[fit_type]
''')]),
('17-r-helper', 'none', [(C, FAM, '        self._set_family(fit_type)\n'), (C, '    def which_plotting_library(self):', '''    def _set_family(self, fit_type):
''' + FAM + '''
    def which_plotting_library(self):''')]),
('17-r-alias', 'none', [(C, FAM, FAM.replace('np.polynomial.', 'poly.')), (C, 'from .util import _derivative\n', 'from .util import _derivative\nfrom numpy import polynomial as poly\n')]),
('17-r-comp', 'none', [(U, DER, '    return [i * p[i] for i in range(1, len(p))]\n')]),
('17-r-enum', 'none', [(U, DER, '    return [i * c for i, c in enumerate(p)][1:]\n')]),
('17-r-enum2', 'none', [(U, DER, '    return [(i + 1) * c for i, c in enumerate(p[1:])]\n')]),
('17-r-arange', 'none', [(U, DER, '    return np.arange(1, len(p)) * np.asarray(p)[1:]\n')]),
('17-r-polyder', 'none', [(C, '_derivative(fit_coeffs)', 'np.polynomial.polynomial.polyder(fit_coeffs)')]),
('17-r-inline', 'none', [(C, GRAD, '''                slope = []
                for i in range(1, len(fit_coeffs)):
                    slope.append(fit_coeffs[i] * i)
                gradient = self.polyval(self.pixel_list, slope)
''')]),
('17-r-vec', 'none', [(M, SCALE, '''    p = p / x.std() ** np.arange(degree, -1, -1)

    return p[::-1]
''')]),
('17-r-flip', 'none', [(M, '    return p[::-1]\n', '    return np.flip(p)\n')]),
('17-r-revfirst', 'none', [(M, SCALE, '''    p = p[::-1]
    for i in range(degree + 1):
        p[i] /= x.std() ** i

    return p
''')]),
('17-r-startvec', 'none', [(M, START, '''        p_init = np.array(p_init, dtype=float)
        p_init = (p_init * x.std() ** np.arange(degree + 1) / y.std())[::-1]
''')]),
('17-r-startfirst', 'none', [(M, START, '''        p_init = np.array(p_init, dtype=float) / y.std()
        for i in range(1, degree + 1):
            p_init[i] *= x.std() ** i
        p_init = p_init[::-1]
''')]),
('17-r-lowmodel', 'none', [(M, POLY, '''        t = 0
        for i in range(degree + 1):
            t = t + a[i] * x**(degree - i)
        return t
''')]),
('17-r-horner', 'none', [(M, POLY, '''        t = a[0]
        for c in a[1:]:
            t = t * x + c
        return t
''')]),
('17-r-lambda', 'none', [(M, '    f = polynomial(a, degree)\n    return y - f(x)\n', '    return y - polynomial(a, degree)(x)\n')]),
('17-r-npval', 'none', [(M, '    f = polynomial(a, degree)\n    return y - f(x)\n', '    return y - np.polyval(a, x)\n')]),
('17-r-kw', 'none', [(C, '            x = self.polyval(p, fit_coeff)\n            diff', '            x = self.polyval(x=p, c=fit_coeff)\n            diff')]),
('17-r-icpt', 'none', [(C, ICPT, '''                intercept0 = fit_coeffs[0]
                if (intercept0 < self.min_intercept) | (
                    intercept0 > self.max_intercept
''')]),
('17-r-plothelper', 'none', [(P, '    wave = calibrator.polyval(calibrator.pixel_list, fit_coeff)', '    evaluate = calibrator.polyval\n    wave = evaluate(calibrator.pixel_list, fit_coeff)')]),
('17-r-adj', 'none', [(C, ADJ, '''        for i in range(len(delta)):
            fit_new[i] = fit_new[i] + delta[i]
''')]),
('17-r-adj2', 'none', [(C, ADJ2, '''            fit_coeff_new[: len(fitted_delta)] += fitted_delta
''')]),
('17-r-adj3', 'none', [(C, ADJ2, '''            for i in range(len(fitted_delta)):
                fit_coeff_new[i] = fit_coeff_new[i] + fitted_delta[i]
''')]),
('17-r-min', 'none', [(C, '''            ).x

            for i, d''', '''            )
            fitted_delta = fitted_delta.x

            for i, d''')]),
]
