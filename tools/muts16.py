C = 'calibrator.py'; A = 'atlas.py'; U = 'util.py'
S = '''        if seed is not None:
            np.random.seed(seed)
'''
D = '''                    x_hat = np.random.choice(
                        peaks, self.sample_size, replace=False, p=prob
                    )
'''
IMP = 'import itertools\n'
EDITS = [
    ('16-truthy', 'C16', [(C, S, S.replace('seed is not None', 'seed'))]),
    ('16-noseed', 'C16', [(C, S, '        self.seed = seed\n')]),
    ('16-always', 'C16', [(C, S, '        np.random.seed(seed)\n')]),
    ('16-fixed', 'C16', [(C, '        self.max_tries = max_tries\n        self.fit_deg', '        np.random.seed(0)\n        self.max_tries = max_tries\n        self.fit_deg')]),
    ('16-fresh', 'C16', [(C, '        self.max_tries = max_tries\n        self.fit_deg', '        np.random.seed()\n        self.max_tries = max_tries\n        self.fit_deg')]),
    ('16-rng', 'C16', [(C, D, D.replace('np.random.choice', 'np.random.default_rng().choice'))]),
    ('16-stdlib', 'C16', [(C, IMP, IMP + 'import random\n'), (C, '''                        if not set(y_choice).issubset(set(y_hat)):
                            y_temp = np.random.choice(y_choice)
''', '''                        if not set(y_choice).issubset(set(y_hat)):
                            y_temp = random.choice(list(y_choice))
''')]),
    ('16-time', 'C16', [(C, IMP, IMP + 'import time\n'), (C, S, '''        if seed is None:
            seed = int(time.time())

        np.random.seed(seed)
''')]),
    ('16-rngobj', 'C16', [(C, S, '''        self.rng = np.random.RandomState()
'''), (C, D, D.replace('np.random.choice', 'self.rng.choice'))]),
    ('16-elements', 'C16', [(A, '            for element in elements:\n', '            for element in set(elements):\n')]),
    ('16-limit', 'C16', [(C, IMP, IMP + 'import time\n'), (C, '''        for sample in sampler_list:
            keep_trying = True
''', '''        start = time.time()

        for sample in sampler_list:
            if time.time() - start > 60:
                break

            keep_trying = True
''')]),
    ('16-legacy-lib', 'C16', [(C, 'delta = (\n            np.random.random(n)', 'delta = (\n            np.random.RandomState(1).random_sample(n)')]),
    ('16r-helper', 'none', [(C, S, '        self._seed(seed)\n'), (C, '    def set_calibrator_properties(', '''    def _seed(self, seed):
        if seed is None:
            return
        np.random.seed(seed)

    def set_calibrator_properties(''')]),
    ('16r-int', 'none', [(C, S, S.replace('(seed)', '(int(seed))'))]),
    ('16r-dupl', 'none', [(A, '            for element in elements:\n', '            for element in sorted(set(elements)):\n')]),
    ('16r-log', 'none', [(C, IMP, IMP + 'import time\n'), (C, '''        for sample in sampler_list:
            keep_trying = True
''', '''        start = time.time()
        self.logger.debug(start)

        for sample in sampler_list:
            self.logger.debug("%.1f s", time.time() - start)
            keep_trying = True
''')]),
    ('16r-perm', 'none', [(C, D, '''                    x_hat = np.random.permutation(peaks)[: self.sample_size]
''')]),
    ('16r-set', 'none', [(C, '''        for peak in np.unique(peaks):
            idx = np.where(peaks == peak)''', '''        for peak in sorted(set(peaks)):
            idx = np.where(peaks == peak)''')]),
    ('16r-uniform', 'none', [(C, '''        delta = (
            np.random.random(n) * self.range_tolerance * 2.0
            - self.range_tolerance
        )
''', '''        delta = np.random.uniform(
            -self.range_tolerance, self.range_tolerance, n
        )
''')]),
]
