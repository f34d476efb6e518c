C = 'calibrator.py'
GM = '''            err_idx = np.argmin(err[mask])
            filtered_x.append(matched_x[mask][err_idx])
            filtered_err.append(err[mask][err_idx])
'''
FULL = '''        # Now we also need to resolve duplicate y's
        filtered_x = []
        filtered_y = []
        filtered_err = []

        for wavelength in np.unique(matched_y):
            mask = matched_y == wavelength
            filtered_y.append(wavelength)

''' + GM + '''
        # overwrite
        err = np.array(filtered_err)
        matched_x = np.array(filtered_x)
        matched_y = np.array(filtered_y)

        assert len(np.unique(matched_x)) == len(np.unique(matched_y))
'''
ERRS = '''            errs = np.abs(fit - candidates[peak])
'''
DRAW = '''                        if not set(y_choice).issubset(set(y_hat)):
                            y_temp = np.random.choice(y_choice)

                            while y_temp in y_hat:
                                y_temp = np.random.choice(y_choice)

                            y_hat.append(y_temp)
'''
LOOP = '''                            while y_temp in y_hat:
                                y_temp = np.random.choice(y_choice)

'''
EDITS = [
 ('25-max', 'C25', [(C, GM, GM.replace('argmin', 'argmax'))]),
 ('25-nomask', 'C25', [(C, GM, GM.replace('np.argmin(err[mask])', 'np.argmin(err)').replace('matched_x[mask][err_idx]', 'matched_x[err_idx]').replace('err[mask][err_idx]', 'err[err_idx]'))]),
 ('25-notmasked', 'C25', [(C, GM, GM.replace('matched_x[mask][err_idx]', 'matched_x[err_idx]'))]),
 ('25-first', 'C25', [(C, GM, GM.replace('matched_x[mask][err_idx]', 'matched_x[mask][0]'))]),
 ('25-nodedupe', 'C25', [(C, FULL, '')]),
 ('25-close', 'C25', [(C, '            mask = matched_y == wavelength\n', '            mask = np.isclose(matched_y, wavelength)\n')]),
 ('25-close2', 'C25', [(C, '            mask = matched_y == wavelength\n', '            mask = np.abs(matched_y - wavelength) < self.ransac_tolerance\n')]),
 ('25-signed', 'C25', [(C, ERRS, '            errs = fit - candidates[peak]\n')]),
 ('25-iter', 'C25', [(C, 'for wavelength in np.unique(matched_y):\n            mask = matched_y', 'for wavelength in matched_y:\n            mask = matched_y')]),
 ('25-draw', 'C25', [(C, LOOP, '')]),
 ('25-draw2', 'C25', [(C, DRAW, '''                        if len(y_choice) > 0:
                            y_hat.append(np.random.choice(y_choice))
''')]),
 ('25-drawchk', 'C25', [(C, LOOP, '''                            if y_temp in y_hat:
                                y_temp = np.random.choice(y_choice)

''')]),
 ('25-errorlost', 'C25', [(C, '            err.append(errs[idx])\n', '            err.append(errs[0])\n')]),
 ('25-errmean', 'C25', [(C, '            err.append(errs[idx])\n', '            err.append(np.mean(errs))\n')]),
 ('25-r-where', 'none', [(C, GM, '''            best = np.where(mask)[0][np.argmin(err[mask])]
            filtered_x.append(matched_x[best])
            filtered_err.append(err[best])
''')]),
 ('25-r-min', 'none', [(C, '            err.append(errs[idx])\n', '            err.append(np.min(errs))\n')]),
 ('25-r-local', 'none', [(C, GM, '''            group_err = err[mask]
            best = group_err.argmin()
            filtered_err.append(group_err[best])
            filtered_x.append(matched_x[mask][best])
''')]),
 ('25-r-swap', 'none', [(C, ERRS, '            errs = np.abs(candidates[peak] - fit)\n')]),
 ('25-r-set', 'none', [(C, 'for wavelength in np.unique(matched_y):', 'for wavelength in sorted(set(matched_y)):')]),
 ('25-r-free', 'none', [(C, DRAW, '''                        free = [c for c in y_choice if c not in y_hat]

                        if len(free) > 0:
                            y_hat.append(np.random.choice(free))
''')]),
 ('25-r-while', 'none', [(C, LOOP, '''                            while True:
                                if y_temp not in y_hat:
                                    break
                                y_temp = np.random.choice(y_choice)

''')]),
 ('25-r-comp', 'none', [(C, GM, '''            filtered_x.append(matched_x[mask][np.argmin(err[mask])])
            filtered_err.append(np.min(err[mask]))
''')]),
 ('25-r-sort', 'none', [(C, GM, GM.replace('np.argmin(err[mask])', 'np.argsort(err[mask])[0]'))]),
 ('25-r-helper', 'none', [(C, FULL, '''        err, matched_x, matched_y = self._dedupe(err, matched_x, matched_y)
'''), (C, '    def _match_bijective(', '''    @staticmethod
    def _dedupe(err, matched_x, matched_y):
        x, y, e = [], [], []
        for wavelength in np.unique(matched_y):
            mask = matched_y == wavelength
            k = np.argmin(err[mask])
            x.append(matched_x[mask][k])
            y.append(wavelength)
            e.append(err[mask][k])
        return np.array(e), np.array(x), np.array(y)

    def _match_bijective(''')]),
 ('25-r-dict', 'none', [(C, FULL, '''        best = {}
        for e, px, wl in zip(err, matched_x, matched_y):
            if wl not in best or e < best[wl][0]:
                best[wl] = (e, px)
        keys = sorted(best)
        err = np.array([best[k][0] for k in keys])
        matched_x = np.array([best[k][1] for k in keys])
        matched_y = np.array(keys)
''')]),
]
