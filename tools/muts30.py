U = 'util.py'
WIN = '''        left = max(0, int(peak) - window_width)
        y = spectrum[left : min(int(peak) + window_width, length)]
        finite = np.isfinite(y)
'''
SCALE = '''        # Do not modify the spectrum, the windows can overlap
        y = y / np.max(y[finite])
        x = np.arange(len(y))
'''
SEL = '''        # Only the finite samples enter the fit and its initial guess
        x, y = x[mask], y[mask]
'''
GUESS = '''        mean = np.sum(x * y) / n
        sigma = np.sum(y * (x - mean) ** 2) / n
'''
FIT = '''            popt, _ = curve_fit(gauss, x, y, p0=[1, mean, sigma])
            height, centre, _ = popt
'''
APP = '            refined_peaks.append(left + centre)\n'
END = '''    mask = (refined_peaks > 0) & (refined_peaks < len(spectrum))
    refined_peaks = refined_peaks[mask]
'''
DIST = '''    distance_mask = np.zeros(len(refined_peaks), dtype=bool)
    distance_mask[1:] = np.isclose(refined_peaks[:-1], refined_peaks[1:])

    return refined_peaks[~distance_mask]
'''
EDITS = [
('30-b-inplace', 'C30', [(U, '        y = y / np.max(y[finite])', '        y /= np.max(y[finite])')]),
('30-b-global', 'C30', [(U, 'y = y / np.max(y[finite])', 'y = y / np.nanmax(spectrum)')]),
('30-b-width', 'C30', [(U, SCALE, '        window_width = min(window_width, len(y) // 2 + 1)\n' + SCALE)]),
('30-b-noleft', 'C30', [(U, 'max(0, int(peak) - window_width)', 'int(peak) - window_width')]),
('30-b-offset', 'C30', [(U, APP, APP.replace('left + centre', 'int(peak) - window_width + centre'))]),
('30-b-offset2', 'C30', [(U, APP, APP.replace('left + centre', 'peak + centre - len(y) / 2'))]),
('30-b-lastcentre', 'C30', [(U, '        except RuntimeError:\n            continue', '        except RuntimeError:\n            refined_peaks.append(left + centre)')]),
('30-b-p0carry', 'C30', [(U, FIT, FIT.replace('p0=[1, mean, sigma]', 'p0=guess') + '            guess = popt\n'), (U, '    refined_peaks = []\n', '    refined_peaks = []\n    guess = None\n')]),
('30-b-p0carry2', 'C30', [(U, '    refined_peaks = []\n', '    refined_peaks = []\n    width = 2.0\n'), (U, FIT, FIT.replace('sigma]', 'width]').replace('height, centre, _ = popt', 'height, centre, width = popt'))]),
('30-b-limit', 'C30', [(U, SCALE, '''        nxt = [p for p in peaks if p > peak]
        if len(nxt) > 0:
            y = y[: int(min(nxt)) - left]
            finite = finite[: int(min(nxt)) - left]
''' + SCALE)]),
('30-b-nanfit', 'C30', [(U, SEL, ''), (U, 'curve_fit(gauss, x, y,', 'curve_fit(gauss, x[mask], y[mask],')]),
('30-b-nomask', 'C30', [(U, SEL, '')]),
('30-b-compress', 'C30', [(U, SEL, '        x, y = x[:n], y[mask]\n')]),
('30-b-recount', 'C30', [(U, SEL, '        y = y[mask]\n        x = np.arange(len(y))\n')]),
('30-b-noend', 'C30', [(U, END, '')]),
('30-b-onlylow', 'C30', [(U, END, END.replace(' & (refined_peaks < len(spectrum))', ''))]),
('30-b-after', 'C30', [(U, END, END.replace('    refined_peaks = refined_peaks[mask]\n', '')), (U, DIST, DIST.replace('[~distance_mask]', '[mask & ~distance_mask]'))]),
('30-b-nodist', 'C30', [(U, DIST, '    return refined_peaks\n')]),
('30-b-invert', 'C30', [(U, DIST, DIST.replace('[~distance_mask]', '[distance_mask]'))]),
('30-b-break', 'C30', [(U, '            if height < 0:\n                continue', '            if height < 0:\n                break')]),
('30-b-shift', 'C30', [(U, DIST, DIST.replace('refined_peaks[:-1], refined_peaks[1:]', 'refined_peaks[:-1], refined_peaks[:-1] + 1'))]),
('30-b-prev', 'C30', [(U, '        finite = np.isfinite(y)\n', '        finite = np.isfinite(y)\n        if len(refined_peaks) > 0 and peak - refined_peaks[-1] < window_width:\n            continue\n')]),
('30-b-sigma', 'C30', [(U, 'height, centre, _ = popt', 'height, _, centre = popt')]),
('30-b-firstpeak', 'C30', [(U, 'left = max(0, int(peak) - window_width)', 'left = max(0, int(peaks[0]) - window_width)')]),
# kept
('30-r-listcomp', 'none', [(U, WIN, '''        centre0 = int(peak)
        left = centre0 - window_width
        if left < 0:
            left = 0
        right = centre0 + window_width
        y = spectrum[left:right]
        finite = np.isfinite(y)
''')]),
('30-r-coord', 'none', [(U, SCALE, SCALE.replace('np.arange(len(y))', 'np.arange(left, left + len(y))')), (U, APP, APP.replace('left + ', '')), (U, 'if centre > len(spectrum) or centre < 0', 'if centre - left > len(spectrum) or centre < left'), ]),
('30-r-helper', 'none', [(U, 'def refine_peaks(', '''def _window(spectrum, peak, width):
    start = max(0, int(peak) - width)
    stop = min(int(peak) + width, len(spectrum))
    return start, spectrum[start:stop]


def refine_peaks('''), (U, WIN, '        left, y = _window(spectrum, peak, window_width)\n        finite = np.isfinite(y)\n')]),
('30-r-insert', 'none', [(U, DIST, '''    close = np.isclose(refined_peaks[:-1], refined_peaks[1:])
    keep = ~np.insert(close, 0, False)
    return refined_peaks[keep[: len(refined_peaks)]]
''')]),
('30-r-concat', 'none', [(U, DIST, '''    far = ~np.isclose(refined_peaks[1:], refined_peaks[:-1])
    keep = np.concatenate(([True], far))
    return refined_peaks[keep] if len(refined_peaks) else refined_peaks
''')]),
('30-r-abs', 'none', [(U, DIST, '''    keep = np.ones(len(refined_peaks), dtype=bool)
    keep[1:] = np.abs(np.diff(refined_peaks)) > 1e-8
    return refined_peaks[keep]
''')]),
('30-r-unique', 'none', [(U, DIST, '    return np.unique(refined_peaks)\n')]),
('30-r-else', 'none', [(U, APP + '\n        except RuntimeError:\n            continue\n', '''        except RuntimeError:
            continue

        refined_peaks.append(centre + left)
''')]),
('30-r-fitfn', 'none', [(U, 'def refine_peaks(', '''def _fit(x, y, n):
    mean = np.sum(x * y) / n
    sigma = np.sum(y * (x - mean) ** 2) / n
    popt, _ = curve_fit(gauss, x, y, p0=[1, mean, sigma])
    return popt


def refine_peaks('''), (U, GUESS, ''), (U, 'popt, _ = curve_fit(gauss, x, y, p0=[1, mean, sigma])\n            height, centre, _ = popt', 'height, centre, _ = _fit(x, y, n)')]),
('30-r-inside', 'none', [(U, END, '    refined_peaks = refined_peaks[refined_peaks > 0]\n    refined_peaks = refined_peaks[refined_peaks < length]\n')]),
('30-r-index', 'none', [(U, '    for peak in peaks:\n', '    for i in range(len(peaks)):\n        peak = peaks[i]\n')]),
('30-r-maskonly', 'none', [(U, SEL, SEL.replace('x, y = x[mask], y[mask]', 'good = np.flatnonzero(mask)\n        x = x[good]\n        y = y[good]'))]),
]
