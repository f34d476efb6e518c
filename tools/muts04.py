A = 'atlas.py'
U = 'util.py'
P = 'plotting.py'
MASK = '''    element_list = lines[:, 0][intensity_mask]
    wavelength_list = lines[:, 1][intensity_mask].astype("float64")
    intensity_list = lines[:, 2][intensity_mask].astype("float64")
'''
DIST = '''    element_list = element_list[distance_mask]
    wavelength_list = wavelength_list[distance_mask]
    intensity_list = intensity_list[distance_mask]
'''
BR = '''        to_keep = np.sort(
            np.argsort(np.array(intensity_list))[::-1][:brightest_n_lines]
        )
        element_list = element_list[to_keep]
        intensity_list = intensity_list[to_keep]
        wavelength_list = wavelength_list[to_keep]
'''
UQ = '''    _, index, _ = np.unique(wavelengths, return_counts=True, return_index=True)

    wavelength_mask = (wavelengths[index] >= min_atlas_wavelength) & (
        wavelengths[index] <= max_atlas_wavelength
    )

    return lines[index][wavelength_mask]
'''
V2A = '''    # Vacuum to air conversion
    if not vacuum:
        wavelength_list = vacuum_to_air_wavelength(
            wavelength_list, temperature, pressure, relative_humidity
        )
'''
LIM = '''        min_atlas_wavelength, max_atlas_wavelength = air_to_vacuum_wavelength(
            (min_atlas_wavelength, max_atlas_wavelength),
            temperature,
            pressure,
            relative_humidity,
        )
'''
OUT = '''    out = []

    for line in lines:
        element = line[0]
        intensity = float(line[2])

        if intensity >= min_intensity_dict[element]:
            out.append(True)
        else:
            out.append(False)

    return np.array(out).astype(bool)
'''
SEP = '''    left_dists = np.zeros_like(wavelengths)
    left_dists[1:] = wavelengths[1:] - wavelengths[:-1]

    right_dists = np.zeros_like(wavelengths)
    right_dists[:-1] = wavelengths[1:] - wavelengths[:-1]
    distances = np.minimum(right_dists, left_dists)
    distances[0] = right_dists[0]
    distances[-1] = left_dists[-1]

    distance_mask = np.abs(distances) >= min_separation

    return distance_mask
'''
ZIP = '''        for element, line, intensity in list(
            zip(elements, wavelengths, intensities)
        ):
            self.atlas_lines.append(AtlasLine(line, element, intensity))
'''
VP = '''    vapour_pressure = get_vapour_pressure(t)
    vapour_partial_pressure = get_vapour_partial_pressure(
        relative_humidity, vapour_pressure
    )
    return np.array(wavelengths) / edlen'''
EDITS = [
# C04
('04-b-zip', 'C04', [(A, ZIP, ZIP.replace('AtlasLine(line, element, intensity)', 'AtlasLine(line, intensity, element)'))]),
('04-b-rev', 'C04', [(A, 'zip(elements, wavelengths, intensities)', 'zip(elements, wavelengths, intensities[::-1])')]),
('04-b-idx', 'C04', [(A, ZIP, '''        for k in range(len(wavelengths)):
            self.atlas_lines.append(
                AtlasLine(wavelengths[k], elements[k - 1], intensities[k])
            )
''')]),
('04-b-first', 'C04', [(A, 'AtlasLine(line, element, intensity))', 'AtlasLine(line, elements[0], intensity))')]),
('04-b-onemask', 'C04', [(U, DIST, DIST.replace('    element_list = element_list[distance_mask]\n', '    element_list = element_list[: np.sum(distance_mask)]\n'))]),
('04-b-bright', 'C04', [(U, BR, BR.replace('        intensity_list = intensity_list[to_keep]\n', '        intensity_list = np.sort(intensity_list)[::-1][:brightest_n_lines]\n'))]),
('04-b-uniq', 'C05', [(U, UQ, UQ.replace('wavelengths[index]', 'wavelengths').replace('lines[index]', 'lines[index]'))]),
('04-b-uniq2', 'C04', [(U, UQ, '    lines = lines.copy()\n    lines[:, 1] = np.sort(wavelengths).astype(lines.dtype)\n' + UQ)]),
('04-b-convsort', 'C04', [(U, V2A, V2A.replace('            wavelength_list, temp', '            np.sort(wavelength_list), temp'))] if False else [(U, BR, BR.replace('np.sort(\n            np.argsort(np.array(intensity_list))[::-1][:brightest_n_lines]\n        )', 'np.argsort(np.array(intensity_list))[::-1][:brightest_n_lines]').replace('        wavelength_list = wavelength_list[to_keep]\n', '        wavelength_list = wavelength_list[np.sort(to_keep)]\n'))]),
('04-b-plotmask', 'C04', [(P, '    wavelength_list = wavelength_list[distance_mask]\n', '    wavelength_list = wavelength_list[distance_mask][::-1]\n')]),
('04-b-get', 'C04', [(A, '        return [line.element for line in self.atlas_lines]', '        return sorted(line.element for line in self.atlas_lines)')]),
('04-b-swapcols', 'C04', [(U, MASK, MASK.replace('lines[:, 2][intensity_mask]', 'lines[:, 1][intensity_mask]'))]),
('04-b-roll', 'C04', [(U, DIST, DIST + '    intensity_list = np.roll(intensity_list, 1)\n')]),
('04-b-sametwice', 'C04', [(A, 'zip(elements, wavelengths, intensities)', 'zip(elements, sorted(set(wavelengths)), intensities)')]),
('04-r-index', 'none', [(A, ZIP, '''        for k in range(len(wavelengths)):
            self.atlas_lines.append(
                AtlasLine(wavelengths[k], elements[k], intensities[k])
            )
''')]),
('04-r-kw', 'none', [(A, ZIP, '''        new_lines = [
            AtlasLine(wavelength=w, element=e, intensity=i)
            for w, e, i in zip(wavelengths, elements, intensities)
        ]
        self.atlas_lines.extend(new_lines)
''')]),
('04-r-table', 'none', [(U, MASK + '\n', '''    kept = lines[intensity_mask]
    element_list = kept[:, 0]
    wavelength_list = kept[:, 1].astype("float64")
    intensity_list = kept[:, 2].astype("float64")

''')]),
('04-r-helper', 'none', [(U, DIST, '''    element_list, wavelength_list, intensity_list = [
        column[distance_mask]
        for column in (element_list, wavelength_list, intensity_list)
    ]
''')]),
('04-r-uniq', 'none', [(U, UQ, '''    index = np.unique(wavelengths, return_index=True)[1]
    lines = lines[index]
    wavelengths = wavelengths[index]
    keep = np.logical_and(
        wavelengths >= min_atlas_wavelength,
        wavelengths <= max_atlas_wavelength,
    )

    return lines[keep]
''')]),
('04-r-sortorder', 'none', [(U, BR, '''        order = np.argsort(intensity_list)
        to_keep = np.sort(order[::-1][:brightest_n_lines])
        element_list, wavelength_list, intensity_list = (
            element_list[to_keep],
            wavelength_list[to_keep],
            intensity_list[to_keep],
        )
''')]),
# C05
('05-b-elem', 'C05', [(U, '    mask = [(li[0] in elements) for li in lines]\n', '    mask = [(li[0][:2] in elements) for li in lines]\n')]),
('05-b-elemall', 'C05', [(U, '    mask = [(li[0] in elements) for li in lines]\n', '    mask = [(li[0] in elements or len(elements) == 0) for li in lines]\n')]),
('05-b-sub', 'C05', [(U, '    if isinstance(elements, str):\n        elements = [elements]\n\n    # Element', '    # Element')]),
('05-b-limlow', 'C05', [(U, '    wavelength_mask = (wavelengths[index] >= min_atlas_wavelength) & (', '    wavelength_mask = (wavelengths[index] > 0) & (')]),
('05-b-limor', 'C05', [(U, '    wavelength_mask = (wavelengths[index] >= min_atlas_wavelength) & (', '    wavelength_mask = (wavelengths[index] >= min_atlas_wavelength) | (')]),
('05-b-int', 'C05', [(U, '        if intensity >= min_intensity_dict[element]:', '        if intensity >= min_intensity_dict[element] or element == "Ar":')]),
('05-b-int0', 'C05', [(U, '    if min_intensity is not None:\n        intensity_mask', '    if min_intensity is not None and len(elements) > 1:\n        intensity_mask')]),
('05-b-dim', 'C05', [(U, BR, BR.replace('[::-1][:brightest_n_lines]', '[:brightest_n_lines]'))]),
('05-b-nplus', 'C05', [(U, BR, BR.replace('[:brightest_n_lines]', '[: brightest_n_lines + 1]'))]),
('05-b-sepfirst', 'C05', [(U, DIST + '\n' + V2A, DIST + '\n' + V2A + '''
    if brightest_n_lines is not None:
        wavelength_list = wavelength_list[:brightest_n_lines]
        element_list = element_list[:brightest_n_lines]
        intensity_list = intensity_list[:brightest_n_lines]
''')] if False else [(U, '    if min_distance > 0:\n', '    if min_distance > 0 and brightest_n_lines is None:\n')]),
('05-b-sepone', 'C05', [(U, '    distances = np.minimum(right_dists, left_dists)\n', '    distances = np.maximum(right_dists, left_dists)\n')]),
('05-b-sepends', 'C05', [(U, '    distances[0] = right_dists[0]\n', '')]),
('05-b-sepabs', 'C05', [(U, '    if len(wavelengths) < 2:\n        return np.ones(len(wavelengths), dtype=bool)\n', '    if len(wavelengths) < 3:\n        return np.ones(len(wavelengths), dtype=bool)\n')]),
('05-b-trunc', 'C05', [(U, '            lines = np.loadtxt(linelist, delimiter=",", dtype=str, ndmin=2)', '            lines = np.loadtxt(linelist, delimiter=",", dtype="U6", ndmin=2)')]),
('05-b-strcmp', 'C05', [(U, '        intensity = float(line[2])\n', '        intensity = int(float(line[2]) + 0.5)\n')]),
('05-b-atlas', 'C05', [(A, '                    min_intensity=min_intensity,\n', '                    min_intensity=max(min_intensity, 0) if not isinstance(min_intensity, list) else min_intensity[0],\n')]),
('05-r-mask', 'none', [(U, '    mask = [(li[0] in elements) for li in lines]\n    lines = lines[mask]\n', '    lines = lines[np.isin(lines[:, 0], elements)]\n')]),
('05-r-out', 'none', [(U, OUT, '''    return np.array(
        [float(line[2]) >= min_intensity_dict[line[0]] for line in lines]
    ).astype(bool)
''')]),
('05-r-gap', 'none', [(U, '''    left_dists = np.zeros_like(wavelengths)
    left_dists[1:] = wavelengths[1:] - wavelengths[:-1]

    right_dists = np.zeros_like(wavelengths)
    right_dists[:-1] = wavelengths[1:] - wavelengths[:-1]
''', '''    gaps = np.diff(wavelengths)

    left_dists = np.zeros_like(wavelengths)
    left_dists[1:] = gaps

    right_dists = np.zeros_like(wavelengths)
    right_dists[:-1] = gaps
''')]),
('05-r-dist', 'none', [(U, '''    if min_distance > 0:
        distance_mask = filter_separation(wavelength_list, min_distance)
    else:
        distance_mask = np.ones_like(wavelength_list.astype(bool))

''' + DIST, '''    if min_distance > 0:
        distance_mask = filter_separation(wavelength_list, min_distance)
        element_list = element_list[distance_mask]
        wavelength_list = wavelength_list[distance_mask]
        intensity_list = intensity_list[distance_mask]
''')]),
('05-r-dict', 'none', [(U, '''        min_intensity_dict = {}

        for i, e in enumerate(elements):
            min_intensity_dict[e] = min_intensity[i]
''', '''        min_intensity_dict = dict(zip(elements, min_intensity))
''')]),
# C06
('06-b-always', 'C06', [(U, '    # Vacuum to air conversion\n    if not vacuum:\n', '    # Vacuum to air conversion\n    if vacuum is not None:\n')]),
('06-b-lim', 'C06', [(U, '    # update the wavelength limit\n    if not vacuum:\n', '    # update the wavelength limit\n    if vacuum:\n')]),
('06-b-swap', 'C06', [(U, '            wavelength_list, temperature, pressure, relative_humidity\n', '            wavelength_list, pressure, temperature, relative_humidity\n')]),
('06-b-hum', 'C06', [(U, V2A, V2A.replace(', relative_humidity', ''))]),
('06-b-wrongway', 'C06', [(U, V2A, V2A.replace('vacuum_to_air', 'air_to_vacuum'))]),
('06-b-user', 'C06', [(A, '        if vacuum:\n            wavelengths', '        if not vacuum:\n            wavelengths')]),
('06-b-usertemp', 'C06', [(A, '                wavelengths, temperature, pressure, relative_humidity\n', '                wavelengths, 273.15, pressure, relative_humidity\n')]),
('06-b-addvac', 'C06', [(A, '                    vacuum=vacuum,\n', '                    vacuum=False,\n')]),
('06-b-half', 'C06', [(U, LIM, '''        min_atlas_wavelength = air_to_vacuum_wavelength(
            min_atlas_wavelength, temperature, pressure, relative_humidity
        )
''')]),
('06-b-plot', 'C06', [(P, '        pressure=pressure,\n        temperature=temperature,\n', '        pressure=temperature,\n        temperature=pressure,\n')]),
('06-r-kw', 'none', [(U, V2A, V2A.replace('wavelength_list, temperature, pressure, relative_humidity', 'wavelength_list,\n            pressure=pressure,\n            temperature=temperature,\n            relative_humidity=relative_humidity,'))]),
('06-r-two', 'none', [(U, LIM, '''        conditions = (temperature, pressure, relative_humidity)
        min_atlas_wavelength = air_to_vacuum_wavelength(
            min_atlas_wavelength, *conditions
        )
        max_atlas_wavelength = air_to_vacuum_wavelength(
            max_atlas_wavelength, *conditions
        )
''')]),
('06-r-in', 'none', [(U, '    # Vacuum to air conversion\n    if not vacuum:\n', '    # Vacuum to air conversion\n    in_air = not vacuum\n    if in_air:\n')]),
# C07
('07-b-k', 'C07', [(U, 'K10 = 6.50175348448e02', 'K10 = 6.50175384448e02')]),
('07-b-cel', 'C07', [(U, '    T = temperature + 273.15\n    omega', '    T = temperature\n    omega')]),
('07-b-hum', 'C07', [(U, 'relative_humidity / 100.0 * vapour_pressure', 'relative_humidity * vapour_pressure')]),
('07-b-s', 'C07', [(U, '    S = np.array(w) ** -2.0', '    S = np.array(w) ** -1.0')]),
('07-b-int', 'C07', [(U, VP, VP.replace('np.array(wavelengths) /', 'np.array(wavelengths, dtype=int) /'))]),
('07-b-pow', 'C07', [(U, '(2.0 * C / X) ** 4.0', '(2.0 * C / X) ** 2.0')]),
('07-b-mul', 'C07', [(U, VP, VP.replace('np.array(wavelengths) /', 'np.array(wavelengths) *'))]),
('07-b-t', 'C07', [(U, 'X = (1.0 + 1e-8 * (E - F * t) * pressure) / (1.0 + G * t)', 'X = (1.0 + 1e-8 * (E - F * T) * pressure) / (1.0 + G * t)')]),
('07-b-term', 'C07', [(U, '        * (292.75 / T)\n', '        * (292.75 / t)\n')]),
('07-b-vt', 'C07', [(U, VP, VP.replace('get_vapour_pressure(t)', 'get_vapour_pressure(temperature)'))]),
('07-r-horner', 'none', [(U, 'A = omega**2.0 + K1 * omega + K2', 'A = (omega + K1) * omega + K2')]),
('07-r-micron', 'none', [(U, '    w = np.array(wavelengths) / 1e4\n', '    w = np.asarray(wavelengths) * 1e-4\n')]),
('07-r-inline', 'none', [(U, '    S = np.array(w) ** -2.0', '    S = 1.0 / (w * w)')]),
('07-r-helper', 'none', [(U, VP, VP.replace('get_vapour_partial_pressure(\n        relative_humidity, vapour_pressure\n    )', 'vapour_pressure * (relative_humidity / 100.0)'))]),
]
