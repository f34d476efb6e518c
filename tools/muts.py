"""Edits used to try the checks: (name, property or 'none', [(file, old, new)]).

'none': behaviour is kept, every check must stay quiet.
"""
A = 'atlas.py'
REM = '''        self.atlas_lines[:] = [
            atlas_line
            for atlas_line in self.atlas_lines
            if not abs(atlas_line.wavelength - wavelength) < tolerance
        ]
'''
ADD = '''                    self.atlas_lines.append(
                        AtlasLine(line, element, intensity, "NIST")
                    )
'''
CLR = '        self.atlas_lines.clear()\n'
EDITS = [
    ('23-iter-remove', 'C23', [(A, REM, '''        for atlas_line in self.atlas_lines:
            if abs(atlas_line.wavelength - wavelength) < tolerance:
                self.atlas_lines.remove(atlas_line)
''')]),
    ('23-one-sided', 'C23', [(A, REM, '''        self.atlas_lines[:] = [
            l for l in self.atlas_lines
            if not 0 <= l.wavelength - wavelength < tolerance]
''')]),
    ('23-inverted', 'C23', [(A, 'if not abs(', 'if abs(')]),
    ('23-halftol', 'C23', [(A, 'wavelength) < tolerance', 'wavelength) < tolerance / 2')]),
    ('23-add-first', 'C23', [(A, '''                for element, line, intensity in list(
                    zip(atlas_elements_tmp''', '''                self.atlas_lines = []
                for element, line, intensity in list(
                    zip(atlas_elements_tmp''')]),
    ('23-add-cond', 'C23', [(A, ADD, '''                    if line not in self.get_lines():
                        self.atlas_lines.append(
                            AtlasLine(line, element, intensity, "NIST")
                        )
''')]),
    ('23-getter-filter', 'C23', [(A, 'return [line.wavelength for line in self.atlas_lines]', 'return [line.wavelength for line in self.atlas_lines if line.intensity]')]),
    ('23-getter-sorted', 'C23', [(A, 'return [line.wavelength for line in self.atlas_lines]', 'return sorted([line.wavelength for line in self.atlas_lines])')]),
    ('23-getter-cached', 'C23', [(A, '        self.atlas_lines = []\n', '        self.atlas_lines = []\n        self._waves = None\n'), (A, 'return [line.wavelength for line in self.atlas_lines]', '''if self._waves is None:
            self._waves = [line.wavelength for line in self.atlas_lines]
        return self._waves''')]),
    ('23-len', 'C23', [(A, 'return len(self.atlas_lines)', 'return len(set(self.get_lines()))')]),
    ('23-clear-partial', 'C23', [(A, CLR, '        del self.atlas_lines[1:]\n')]),
    ('23-replace', 'C23', [('calibrator.py', '        if self.atlas is None:\n            self.atlas = Atlas()\n', '        self.atlas = Atlas()\n')]),
    ('23-noargs', 'C23', [('calibrator.py', 'self.atlas.remove_atlas_lines_range(wavelength, tolerance)', 'self.atlas.remove_atlas_lines_range(wavelength)')]),
    ('23-first-element', 'C23', [(A, '            for element in elements:\n', '            for element in elements[:1]:\n')]),
    ('23r-loop', 'none', [(A, REM, '''        kept = []
        for line in self.atlas_lines:
            separation = abs(line.wavelength - wavelength)
            if separation < tolerance:
                continue
            kept.append(line)
        self.atlas_lines[:] = kept
''')]),
    ('23r-assign', 'none', [(A, REM, '''        lo, hi = wavelength - tolerance, wavelength + tolerance
        self.atlas_lines = [
            x for x in self.atlas_lines
            if x.wavelength <= lo or x.wavelength >= hi]
''')]),
    ('23r-helper', 'none', [(A, REM, '''        self.atlas_lines[:] = list(
            filter(
                lambda x: abs(x.wavelength - wavelength) >= tolerance,
                self.atlas_lines,
            )
        )
''')]),
    ('23r-backwards', 'none', [(A, REM, '''        for i in range(len(self.atlas_lines) - 1, -1, -1):
            if abs(self.atlas_lines[i].wavelength - wavelength) < tolerance:
                del self.atlas_lines[i]
''')]),
    ('23r-clear', 'none', [(A, CLR, '        del self.atlas_lines[:]\n')]),
    ('23r-clear2', 'none', [(A, CLR, '        self.atlas_lines[:] = []\n')]),
    ('23r-extend', 'none', [(A, '''                for element, line, intensity in list(
                    zip(atlas_elements_tmp, atlas_tmp, atlas_intensities_tmp)
                ):
''' + ADD, '''                self.atlas_lines.extend(
                    AtlasLine(line, name, intensity, "NIST")
                    for name, line, intensity in zip(
                        atlas_elements_tmp, atlas_tmp, atlas_intensities_tmp
                    )
                )
''')]),
    ('23r-getter', 'none', [(A, 'return [line.wavelength for line in self.atlas_lines]', '''wavelengths = []
        for atlas_line in self.atlas_lines:
            wavelengths.append(atlas_line.wavelength)
        return wavelengths''')]),
    ('23r-getter-map', 'none', [(A, 'return [line.wavelength for line in self.atlas_lines]', 'return list(map(lambda l: l.wavelength, self.atlas_lines))')]),
    ('23r-len', 'none', [(A, 'return len(self.atlas_lines)', 'return len(self.get_lines())')]),
]
