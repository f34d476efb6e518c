C = 'calibrator.py'
STORE = '''                    self.matched_peaks = list(copy.deepcopy(matched_peaks))
                    self.matched_atlas = list(copy.deepcopy(matched_atlas))
'''
ADD = '''        # Keep the order of the matched peaks
        arg = np.sum(np.asarray(self.matched_peaks) < pix)

        # Only update the lists if both can be inserted
        matched_peaks = np.insert(self.matched_peaks, arg, pix)
        matched_atlas = np.insert(self.matched_atlas, arg, wave)

        self.matched_peaks = matched_peaks
        self.matched_atlas = matched_atlas
'''
REM = '''        # Only update the lists if both can be deleted
        matched_peaks = np.delete(self.matched_peaks, arg)
        matched_atlas = np.delete(self.matched_atlas, arg)

        self.matched_peaks = matched_peaks
        self.matched_atlas = matched_atlas
'''
RST = '''        self.matched_peaks = copy.deepcopy(matched_peaks)
        self.matched_atlas = copy.deepcopy(matched_atlas)
'''
ZPW = 'zip(self.matched_peaks, self.matched_atlas)'
PWL = """        for i, (p, w) in enumerate(
            zip(self.matched_peaks, self.matched_atlas)
        ):
"""
LEN = '        assert len(x) == len(y)\n'
MST = '''        self.matched_peaks = matched_peaks
        self.matched_atlas = best_atlas
'''
FIND = '''            if diff_abs.any():
                matched_peaks.append(p)
                matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
'''
PERM = '''                # only reuse a line if there is nothing else in reach
                unused = [line for line in match if line not in c]

                for line in unused if len(unused) > 0 else match:
                    new_candidates.append(c + [line])
'''
LOOP2 = '''            filtered_y.append(wavelength)

            err_idx = np.argmin(err[mask])
            filtered_x.append(matched_x[mask][err_idx])
            filtered_err.append(err[mask][err_idx])
'''
MASK = '''                    mask = err < self.ransac_tolerance
                    n_inliers = sum(mask)
                    matched_peaks = matched_x[mask]
                    matched_atlas = matched_y[mask]
'''
EDITS = [
 ('08-add-base', 'C08', [(C, 'arg = np.sum(np.asarray(self.matched_peaks) < pix)', 'arg = np.argwhere(pix > self.matched_peaks)[0]')]),
 ('08-add-argmax', 'C08', [(C, 'arg = np.sum(np.asarray(self.matched_peaks) < pix)', 'arg = np.argmax(np.asarray(self.matched_peaks) > pix)')]),
 ('08-add-half', 'C08', [(C, ADD, '''        arg = np.sum(np.asarray(self.matched_peaks) < pix)
        self.matched_peaks = np.insert(self.matched_peaks, arg, pix)
        self.matched_atlas = np.insert(self.matched_atlas, arg, wave)
''')]),
 ('08-add-own-pos', 'C08', [(C, ADD, ADD.replace('np.insert(self.matched_atlas, arg, wave)', 'np.insert(self.matched_atlas, np.sum(np.asarray(self.matched_atlas) < wave), wave)'))]),
 ('08-add-end', 'C08', [(C, ADD, ADD.replace('np.insert(self.matched_atlas, arg, wave)', 'np.append(self.matched_atlas, wave)'))]),
 ('08-add-swap', 'C08', [(C, ADD, ADD.replace('arg, pix)', 'arg, wave)').replace('matched_atlas, arg, wave)', 'matched_atlas, arg, pix)'))]),
 ('08-add-one', 'C08', [(C, ADD, ADD.replace('        self.matched_atlas = matched_atlas\n', ''))]),
 ('08-rem-one', 'C08', [(C, REM, REM.replace('        self.matched_peaks = matched_peaks\n', ''))]),
 ('08-rem-shift', 'C08', [(C, REM, REM.replace('np.delete(self.matched_atlas, arg)', 'np.delete(self.matched_atlas, arg - 1)'))]),
 ('08-rem-cond', 'C08', [(C, REM, REM.replace('        self.matched_atlas = matched_atlas\n', '        if arg < len(matched_atlas):\n            self.matched_atlas = matched_atlas\n'))]),
 ('08-refit-nolen', 'C08', [(C, LEN, '')]),
 ('08-refit-cut', 'C08', [(C, LEN, '        n = min(len(x), len(y))\n        x, y = x[:n], y[:n]\n')]),
 ('08-refit-early', 'C08', [(C, RST, ''), (C, '        x = np.asarray(matched_peaks)\n        y = np.asarray(matched_atlas)\n', RST + '        x = np.asarray(matched_peaks)\n        y = np.asarray(matched_atlas)\n')]),
 ('08-refit-sorted', 'C08', [(C, RST, RST.replace('copy.deepcopy(matched_peaks)', 'sorted(matched_peaks)'))]),
 ('08-refit-uniq', 'C08', [(C, RST, RST.replace('copy.deepcopy(matched_atlas)', 'np.unique(matched_atlas)'))]),
 ('08-refit-given', 'C08', [(C, RST, '''        self.matched_peaks = copy.deepcopy(matched_peaks)
        if degree > 0 and x0 is not None:
            self.matched_atlas = copy.deepcopy(matched_atlas)
''')]),
 ('08-match-outside', 'C08', [(C, FIND, FIND.replace('                matched_peaks.append(p)\n', '').replace('            if diff', '            matched_peaks.append(p)\n\n            if diff'))]),
 ('08-match-guard', 'C08', [(C, FIND, '''            if diff_abs.any():
                matched_peaks.append(p)
                if np.sum(diff_abs) < 50:
                    matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
''')]),
 ('08-match-skip', 'C08', [(C, PERM, '''                for line in match:
                    if line not in c:
                        new_candidates.append(c + [line])
                    else:
                        new_candidates.append(c)
''')]),
 ('08-match-break', 'C08', [(C, "            # limit the number of permutations\n            candidates = new_candidates[:1000]\n", "            candidates = new_candidates[:1000]\n            if len(candidates) >= 1000:\n                break\n")]),
 ('08-match-sorted', 'C08', [(C, MST, MST.replace('best_atlas\n', 'np.sort(best_atlas)\n'))]),
 ('08-match-uniq', 'C08', [(C, MST, MST.replace('best_atlas\n', 'np.unique(best_atlas)\n'))]),
 ('08-match-mask', 'C08', [(C, MST, MST.replace('= matched_peaks\n', '= matched_peaks[np.abs(residuals) < tolerance]\n'))]),
 ('08-bij-y', 'none', [(C, MASK, MASK.replace('matched_atlas = matched_y[mask]', 'matched_atlas = np.sort(matched_y)[mask]'))]),
 ('08-bij-mask', 'C08', [(C, MASK, MASK.replace('matched_atlas = matched_y[mask]', 'matched_atlas = matched_y[:n_inliers]'))]),
 ('08-bij-guard', 'C08', [(C, LOOP2, LOOP2.replace('            filtered_y.append(wavelength)\n', '').replace('            filtered_err', '            if np.isfinite(wavelength) and err[mask][err_idx] < 5.0:\n                filtered_y.append(wavelength)\n            filtered_err', 1))]),
 ('08-fit-atlas-raw', 'C08', [(C, STORE, STORE.replace('list(copy.deepcopy(matched_atlas))', 'list(copy.deepcopy(matched_y))'))]),
 ('08-fit-assert', 'C08', [(C, STORE, STORE.replace('                    self.matched_atlas', '                    assert len(np.unique(self.matched_peaks)) == len(self.matched_peaks)\n                    self.matched_atlas'))]),
 ('08-fit-sorted', 'C08', [(C, STORE, STORE.replace('list(copy.deepcopy(matched_peaks))', 'sorted(matched_peaks)'))]),
 # refactorings
 ('08x-add-search', 'none', [(C, ADD, '''        arg = np.searchsorted(self.matched_peaks, pix)
        self.matched_peaks, self.matched_atlas = (
            np.insert(self.matched_peaks, arg, pix),
            np.insert(self.matched_atlas, arg, wave),
        )
''')]),
 ('08x-add-list', 'none', [(C, ADD, '''        arg = len([p for p in self.matched_peaks if p < pix])
        peaks = list(self.matched_peaks)
        lines = list(self.matched_atlas)
        peaks.insert(arg, pix)
        lines.insert(arg, wave)
        self.matched_peaks = np.array(peaks)
        self.matched_atlas = np.array(lines)
''')]),
 ('08x-add-concat', 'none', [(C, ADD, '''        arg = int(np.sum(np.asarray(self.matched_peaks) < pix))
        mp, ma = self.matched_peaks, self.matched_atlas
        new_p = np.concatenate([mp[:arg], [pix], mp[arg:]])
        new_a = np.concatenate([ma[:arg], [wave], ma[arg:]])
        self.matched_peaks = new_p
        self.matched_atlas = new_a
''')]),
 ('08x-add-helper', 'none', [(C, ADD, '''        arg = np.sum(np.asarray(self.matched_peaks) < pix)
        self._set_pairs(np.insert(self.matched_peaks, arg, pix), np.insert(self.matched_atlas, arg, wave))
'''), (C, '    def get_pix_wave_pairs(self):', '''    def _set_pairs(self, peaks, lines):
        self.matched_atlas = lines
        self.matched_peaks = peaks

    def get_pix_wave_pairs(self):''')]),
 ('08x-rem-inter', 'none', [(C, REM, '''        self.matched_peaks = np.delete(self.matched_peaks, arg)
        self.matched_atlas = np.delete(self.matched_atlas, arg)
''')]),
 ('08x-rem-mask', 'none', [(C, REM, '''        keep = np.ones(len(self.matched_peaks), dtype=bool)
        keep[arg] = False
        mp = np.asarray(self.matched_peaks)[keep]
        ma = np.asarray(self.matched_atlas)[keep]
        self.matched_peaks, self.matched_atlas = mp, ma
''')]),
 ('08x-refit-raise', 'none', [(C, LEN, '        if len(x) != len(y):\n            raise ValueError("lengths differ")\n')]),
 ('08x-refit-size', 'none', [(C, LEN, '        assert x.shape[0] == y.shape[0], "same length"\n')]),
 ('08x-refit-len', 'none', [(C, LEN, '        assert len(matched_peaks) == len(matched_atlas)\n')]),
 ('08x-refit-order', 'none', [(C, RST, '''        self.matched_atlas = copy.deepcopy(matched_atlas)
        self.matched_peaks = copy.deepcopy(matched_peaks)
''')]),
 ('08x-refit-xy', 'none', [(C, RST, '''        self.matched_peaks = list(x)
        self.matched_atlas = list(y)
''')]),
 ('08x-product', 'none', [(C, '''            candidates = new_candidates[:1000]
''', '''            candidates = new_candidates[0:1000]
''')]),
 ('08x-perm-comp', 'none', [(C, PERM, '''                unused = [line for line in match if line not in c]
                new_candidates.extend([c + [line] for line in (unused or match)])
''')]),
 ('08x-find-pairs', 'none', [(C, FIND, '''            if not diff_abs.any():
                continue
            lines = np.asarray(atlas_lines)[diff_abs]
            matched_atlas.append(lines.tolist())
            matched_peaks.append(p)
''')]),
 ('08x-mask-np', 'none', [(C, MASK, MASK.replace('matched_x[mask]', 'np.compress(mask, matched_x)').replace('matched_y[mask]', 'np.compress(mask, matched_y)'))]),
 ('08x-mask-comp', 'none', [(C, MASK, MASK.replace('matched_x[mask]', 'np.array([p for p, m in zip(matched_x, mask) if m])').replace('matched_y[mask]', 'np.array([w for w, m in zip(matched_y, mask) if m])'))]),
 ('08x-bij-argmin', 'none', [(C, LOOP2, '''            best = np.where(mask)[0][np.argmin(err[mask])]
            filtered_y.append(wavelength)
            filtered_x.append(matched_x[best])
            filtered_err.append(err[best])
''')]),
 ('08-pairs-of-all-peaks', 'C08', [(C, ZPW, 'zip(self.peaks, self.matched_atlas)')]),
 ('08-pairs-from-one', 'C08', [(C, ZPW + '\n        )', 'zip(self.matched_peaks, self.matched_atlas), 1\n        )')]),
 ('08-pairs-skip-first', 'C08', [(C, ZPW, 'zip(self.matched_peaks[1:], self.matched_atlas[1:])')]),
 ('08-pairs-swapped', 'C08', [(C, 'pw_pairs.append((i, p, w))', 'pw_pairs.append((i, w, p))')]),
 ('08x-pairs-index', 'none', [(C, PWL, """        for i in range(len(self.matched_peaks)):
            p = self.matched_peaks[i]
            w = self.matched_atlas[i]
""")]),
 ('08x-pairs-comp', 'none', [(C, '            pw_pairs.append((i, p, w))\n', ''), (C, '        return pw_pairs\n', """        return [
            (k, self.matched_peaks[k], self.matched_atlas[k])
            for k in range(len(self.matched_peaks))
        ]
""")]),
]
