C = 'calibrator.py'
STORE = '''                    self.matched_peaks = list(copy.deepcopy(matched_peaks))
                    self.matched_atlas = list(copy.deepcopy(matched_atlas))
'''
EXT = '''        for candidate in candidates:
            peaks.extend(candidate[0])
            wavelengths.extend(candidate[1])
            probabilities.extend(candidate[2])
'''
PAIRS = '''        pairs = [
            pair
            for pair in itertools.product(self.peaks, self.atlas.get_lines())
        ]
'''
LIN = '''            self.candidates.append(
                (self.pairs[:, 0][mask], actual[mask], weight)
            )
'''
POLY = '''                self.candidates.append(
                    [self.pairs[:, 0][mask], actual[mask], weight]
                )
'''
OUTW = '''                out_wavelengths.extend(
                    wavelengths_matched[np.argsort(-aggregated_count)[:n]]
                )
'''
BIJ = '''            matched_x.append(peak)
            matched_y.append(candidates[peak][idx])
'''
FIND = '''                matched_peaks.append(p)
                matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
'''
EDITS = [
 ('09-lin-pred', 'C09', [(C, LIN, LIN.replace('actual[mask]', 'predicted[mask]'))]),
 ('09-poly-pred', 'C09', [(C, POLY, POLY.replace('actual[mask]', 'predicted[mask]'))]),
 ('09-poly-shift', 'C09', [(C, POLY, POLY.replace('actual[mask]', 'actual[mask] + d'))]),
 ('09-lin-swap', 'C09', [(C, LIN, LIN.replace('(self.pairs[:, 0][mask], actual[mask], weight)', '(actual[mask], self.pairs[:, 0][mask], weight)'))]),
 ('09-lin-weight', 'C09', [(C, EXT, EXT.replace('wavelengths.extend(candidate[1])', 'wavelengths.extend(candidate[2])'))]),
 ('09-mean', 'C09', [(C, OUTW, OUTW.replace('wavelengths_matched[np.argsort(-aggregated_count)[:n]]', '[np.mean(wavelengths_matched)] * n'))]),
 ('09-avg', 'C09', [(C, OUTW, OUTW.replace('wavelengths_matched[np.argsort(-aggregated_count)[:n]]', '[np.average(wavelengths_matched, weights=counts)] * n'))]),
 ('09-int', 'C09', [(C, 'peaks = np.array(peaks)\n        wavelengths = np.array(wavelengths)', 'peaks = np.array(peaks).astype(int)\n        wavelengths = np.array(wavelengths)')]),
 ('09-round', 'C09', [(C, 'wavelengths = np.array(wavelengths)\n', 'wavelengths = np.round(np.array(wavelengths), 2)\n')]),
 ('09-f32', 'C09', [(C, 'wavelengths = np.array(wavelengths)\n', 'wavelengths = np.array(wavelengths, dtype="float32")\n')]),
 ('09-bij-fit', 'C09', [(C, BIJ, BIJ.replace('candidates[peak][idx]', 'fit'))]),
 ('09-known', 'C09', [(C, STORE, STORE + '''                    if self.pix_known is not None:
                        self.matched_peaks = self.matched_peaks + list(self.pix_known)
                        self.matched_atlas = self.matched_atlas + list(self.wave_known)
''')]),
 ('09-known2', 'C09', [(C, '''        # Build a key(pixel)-value(wavelength) dictionary from the candidates
''', '''        if self.pix_known is not None:
            x = np.concatenate((x, self.pix_known))
            y = np.concatenate((y, self.wave_known))

        # Build a key(pixel)-value(wavelength) dictionary from the candidates
''')]),
 ('09-pairs-air', 'C09', [(C, PAIRS, PAIRS.replace('self.atlas.get_lines()', '[l.wavelength * 1.0003 for l in self.atlas.atlas_lines]'))]),
 ('09-pairs-int', 'C09', [(C, PAIRS, PAIRS.replace('self.atlas.get_lines()', 'self.atlas.get_intensities()'))]),
 ('09-pairs-dtype', 'C09', [(C, 'self.pairs = np.array(pairs).reshape(-1, 2)', 'self.pairs = np.array(pairs, dtype=int).reshape(-1, 2)')]),
 ('09-pairs-swap', 'C09', [(C, PAIRS, PAIRS.replace('self.peaks, self.atlas.get_lines()', 'self.atlas.get_lines(), self.peaks'))]),
 ('09-match-x', 'C09', [(C, FIND, FIND.replace('list(np.asarray(atlas_lines)[diff_abs])', 'list((diff + x)[diff_abs].round(3))'))]),
 ('09-match-pred', 'C09', [(C, FIND, FIND.replace('list(np.asarray(atlas_lines)[diff_abs])', '[x]'))]),
 ('09-match-int', 'C09', [(C, '        matched_peaks = np.array(matched_peaks)\n\n        # Check all', '        matched_peaks = np.array(matched_peaks, dtype=int)\n\n        # Check all')]),
 ('09-match-best', 'C09', [(C, '        self.matched_atlas = best_atlas\n', '        self.matched_atlas = self.polyval(matched_peaks, fit_coeff)\n')]),
 ('09-init-round', 'C09', [(C, 'self.peaks = copy.deepcopy(peaks)', 'self.peaks = np.round(peaks, 1)')]),
 ('09-fit-eff', 'C09', [(C, STORE, STORE.replace('list(copy.deepcopy(matched_peaks))', 'list(copy.deepcopy(np.searchsorted(self.pixel_list, matched_peaks)))'))]),
 ('09x-pairs-loop', 'none', [(C, PAIRS, '''        lines = self.atlas.get_lines()
        pairs = []
        for peak in self.peaks:
            for line in lines:
                pairs.append((peak, line))
''')]),
 ('09x-pairs-comp', 'none', [(C, PAIRS, '        lines = self.atlas.get_lines()\n        pairs = [[p, w] for p in self.peaks for w in lines]\n')]),
 ('09x-pairs-list', 'none', [(C, PAIRS, '        pairs = list(itertools.product(self.peaks, self.atlas.get_lines()))\n')]),
 ('09x-pairs-mesh', 'none', [(C, PAIRS, '        lines = self.atlas.get_lines()\n        pairs = np.column_stack((np.repeat(self.peaks, len(lines)), np.tile(lines, len(self.peaks))))\n')]),
 ('09x-lin-sel', 'none', [(C, LIN, '''            selected = self.pairs[mask]
            self.candidates.append(
                (selected[:, 0], selected[:, 1], weight)
            )
''')]),
 ('09x-lin-T', 'none', [(C, LIN, '''            pix, wav = self.pairs[mask].T
            self.candidates.append((pix, wav, weight))
''')]),
 ('09x-cat', 'none', [(C, EXT, '''        for p, w, prob in candidates:
            peaks += list(p)
            wavelengths += list(w)
            probabilities += list(prob)
''')]),
 ('09x-cat2', 'none', [(C, EXT, '''        peaks = np.concatenate([c[0] for c in candidates])
        wavelengths = np.concatenate([c[1] for c in candidates])
        probabilities = np.concatenate([c[2] for c in candidates])
''')]),
 ('09x-outw', 'none', [(C, OUTW, '''                order = np.argsort(-aggregated_count)
                for k in order[:n]:
                    out_wavelengths.append(wavelengths_matched[k])
''')]),
 ('09x-float', 'none', [(C, BIJ, BIJ.replace('(peak)', '(float(peak))'))]),
 ('09x-f64', 'none', [(C, 'wavelengths = np.array(wavelengths)\n', 'wavelengths = np.asarray(wavelengths, dtype=float)\n')]),
]
