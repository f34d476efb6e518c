C = 'calibrator.py'; H = 'houghtransform.py'
EDITS = [
    ('15-swap-edges', 'C15', [(H, 'self.xedges = input_npy[2].astype("float")\n            self.yedges = input_npy[3]', 'self.xedges = input_npy[3].astype("float")\n            self.yedges = input_npy[2]')]),
    ('15-int', 'C15', [(H, 'self.hist = np.array(input_json["hist"]).astype("float")', 'self.hist = np.array(input_json["hist"]).astype("int")')]),
    ('15-f32', 'C15', [(H, 'self.xedges = input_npy[2].astype("float")', 'self.xedges = input_npy[2].astype("float32")')]),
    ('15-list', 'C15', [(H, 'self.hough_points = np.array(input_json["hough_points"])', 'self.hough_points = input_json["hough_points"]')]),
    ('15-omit', 'C15', [(H, '            self.min_slope = float(input_npy[4][0])\n', '')]),
    ('15-omit-both', 'C15', [(H, '            self.max_intercept = float(input_npy[7][0])\n', ''), (H, '            self.max_intercept = float(input_json["max_intercept"])\n', '')]),
    ('15-insert', 'C15', [(H, '            output_npy.append([self.min_slope])\n', '            output_npy.append([self.min_slope])\n            output_npy.append([self.min_slope])\n')]),
    ('15-slope-icpt', 'C15', [(H, 'output_json["min_slope"] = self.min_slope', 'output_json["min_slope"] = self.min_intercept')]),
    ('15-norank', 'C15', [(H, '''                "Unknown filetype %s, it has to be npy or json" % filetype
            )

        self._rank_hough_lines()''', '''                "Unknown filetype %s, it has to be npy or json" % filetype
            )''')]),
    ('15-rank-json', 'C15', [(H, '''                "Unknown filetype %s, it has to be npy or json" % filetype
            )

        self._rank_hough_lines()''', '''                "Unknown filetype %s, it has to be npy or json" % filetype
            )

        if filetype == "npy":
            self._rank_hough_lines()''')]),
    ('15-rank-early', 'C15', [(H, '            self.min_slope = float(input_npy[4][0])\n', '            self._rank_hough_lines()\n            self.min_slope = float(input_npy[4][0])\n'), (H, '''                "Unknown filetype %s, it has to be npy or json" % filetype
            )

        self._rank_hough_lines()''', '''                "Unknown filetype %s, it has to be npy or json" % filetype
            )'''), (H, '            self.hist = np.array(input_json["hist"]).astype("float")\n', '            self._rank_hough_lines()\n            self.hist = np.array(input_json["hist"]).astype("float")\n')]),
    ('15-cal', 'C15', [(C, '''        self.ht.load(filename=filename, filetype=filetype)
        self.hough_points = self.ht.hough_points
        self.hough_lines = self.ht.hough_lines''', '''        self.hough_points = self.ht.hough_points
        self.ht.load(filename=filename, filetype=filetype)
        self.hough_lines = self.ht.hough_lines''')]),
    ('15-mem', 'C15', [(H, '                return output_npy, output_json', '                return output_json, output_npy')]),
    ('15-round', 'C15', [(H, 'output_json["xedges"] = self.xedges.tolist()', 'output_json["xedges"] = np.round(self.xedges, 3).tolist()')]),
    ('15-elif', 'C15', [(H, '        if "json" in fileformat_split:\n            output_json = {}', '        elif "json" in fileformat_split:\n            output_json = {}')]),
    ('15r-dict', 'none', [(H, '''            output_json["min_slope"] = self.min_slope
            output_json["max_slope"] = self.max_slope
            output_json["min_intercept"] = self.min_intercept
            output_json["max_intercept"] = self.max_intercept
''', '''            for name in (
                "min_slope",
                "max_slope",
                "min_intercept",
                "max_intercept",
            ):
                output_json[name] = getattr(self, name)
''')]),
    ('15r-list', 'none', [(H, '''            output_npy.append([self.min_slope])
            output_npy.append([self.max_slope])
            output_npy.append([self.min_intercept])
            output_npy.append([self.max_intercept])
''', '''            output_npy.extend(
                [
                    [self.min_slope],
                    [self.max_slope],
                    [self.min_intercept],
                    [self.max_intercept],
                ]
            )
''')]),
    ('15r-order', 'none', [(H, '''            output_npy.append(self.xedges)
            output_npy.append(self.yedges)
''', '''            output_npy.append(self.yedges)
            output_npy.append(self.xedges)
'''), (H, 'self.xedges = input_npy[2].astype("float")\n            self.yedges = input_npy[3]', 'self.xedges = input_npy[3].astype("float")\n            self.yedges = input_npy[2]')]),
    ('15r-setattr', 'none', [(H, '''            self.min_slope = float(input_json["min_slope"])
            self.max_slope = float(input_json["max_slope"])
            self.min_intercept = float(input_json["min_intercept"])
            self.max_intercept = float(input_json["max_intercept"])
''', '''            for key in ("min_slope", "max_slope", "min_intercept", "max_intercept"):
                setattr(self, key, float(input_json[key]))
''')]),
    ('15r-with', 'none', [(H, 'input_json = json.load(open(filename))', 'with open(filename) as f:\n                input_json = json.load(f)')]),
    ('15r-split', 'none', [(H, '''        if filetype == "npy":
            if filename[-4:] != ".npy":
                filename += ".npy"

            input_npy = np.load(filename, allow_pickle=True)

            self.hough_points = input_npy[0]''', '''        if filetype == "npy":
            self._load_npy(filename)

        elif False:
            input_npy = np.load(filename, allow_pickle=True)

            self.hough_points = input_npy[0]'''), (H, '''    def load(self, filename="hough_transform", filetype="npy"):''', '''    def _load_npy(self, filename):
        if not filename.endswith(".npy"):
            filename += ".npy"

        (
            self.hough_points,
            hist,
            xedges,
            yedges,
            min_slope,
            max_slope,
            min_intercept,
            max_intercept,
        ) = np.load(filename, allow_pickle=True)
        self.hist = hist.astype("float")
        self.xedges = xedges.astype("float")
        self.yedges = yedges.astype("float")
        self.min_slope = float(min_slope[0])
        self.max_slope = float(max_slope[0])
        self.min_intercept = float(min_intercept[0])
        self.max_intercept = float(max_intercept[0])

    def load(self, filename="hough_transform", filetype="npy"):''')]),
]
