C = 'calibrator.py'
W = '''            while keep_trying and tries_left > 0:
                tries_left -= 1
'''
INIT = '            tries_left = 1 if brute_force else 1000\n'
SAMP = '            sampler = range(int(max_tries))\n'
COMB = 'sampler = itertools.combinations(idx, self.sample_size)'
RED = '''                        if not set(y_choice).issubset(set(y_hat)):
'''
MONO = '''                    self.logger.debug("Intercept exceeds bounds.")
                    continue
'''
EDITS = [
 ('24-nocount', 'C24', [(C, W, '            while keep_trying:\n')]),
 ('24-nolimit', 'C24', [(C, W, W.replace(' and tries_left > 0', ''))]),
 ('24-or', 'C24', [(C, W, W.replace(' and ', ' or '))]),
 ('24-inc', 'C24', [(C, W, W.replace('-= 1', '+= 1'))]),
 ('24-late', 'C24', [(C, W, '            while keep_trying and tries_left > 0:\n'), (C, '                # Check monotonicity.\n', '                tries_left -= 1\n\n                # Check monotonicity.\n')]),
 ('24-late2', 'C24', [(C, W, '            while keep_trying and tries_left > 0:\n'), (C, '                if len(matched_x) == 0:\n                    continue\n', '                if len(matched_x) == 0:\n                    tries_left -= 1\n                    continue\n')]),
 ('24-reset', 'C24', [(C, MONO, MONO.replace('continue\n', 'tries_left = 1000\n                    continue\n'))]),
 ('24-inf', 'C24', [(C, INIT, '            tries_left = 1 if brute_force else np.inf\n')]),
 ('24-back', 'C24', [(C, MONO, MONO.replace('continue\n', 'tries_left += 1\n                    continue\n'))]),
 ('24-cycle', 'C24', [(C, COMB, 'sampler = itertools.cycle(itertools.combinations(idx, self.sample_size))')]),
 ('24-count', 'C24', [(C, SAMP, '            sampler = itertools.count()\n')]),
 ('24-issubset', 'C24', [(C, RED, '                        if len(y_choice) > 0:\n')]),
 ('24-issubset2', 'C24', [(C, RED, '                        if set(y_choice).issubset(set(y_hat)) or True:\n')]),
 ('24-r-for', 'none', [(C, W, '            for _attempt in range(1 if brute_force else 1000):\n                if not keep_trying:\n                    break\n')]),
 ('24-r-up', 'none', [(C, INIT, '            limit = 1 if brute_force else 1000\n            tried = 0\n'), (C, W, '            while keep_trying and tried < limit:\n                tried += 1\n')]),
 ('24-r-break', 'none', [(C, W, '''            while keep_trying:
                if tries_left <= 0:
                    break
                tries_left -= 1
''')]),
 ('24-r-true', 'none', [(C, W, '''            while True:
                if not keep_trying or tries_left < 1:
                    break
                tries_left = tries_left - 1
''')]),
 ('24-r-geq', 'none', [(C, W, W.replace('tries_left > 0', 'tries_left >= 1'))]),
 ('24-r-diff', 'none', [(C, RED, '                        if len(set(y_choice) - set(y_hat)) > 0:\n')]),
 ('24-r-any', 'none', [(C, RED, '                        if any(w not in y_hat for w in y_choice):\n')]),
 ('24-r-le', 'none', [(C, RED, '                        if not set(y_choice) <= set(y_hat):\n')]),
 ('24-r-flag', 'none', [(C, W, '''            while keep_trying:
                tries_left -= 1
                if tries_left <= 0:
                    keep_trying = False
''')]),
]
