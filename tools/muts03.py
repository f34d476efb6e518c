import re
P = 'plotting.py'
H = 'houghtransform.py'
C = 'calibrator.py'
S = open('/repo/src/rascal/' + P).read()
ARC = S.index('def plot_arc')
FIT = S.index('def plot_fit')
SEA = S.index('def plot_search_space')


def within(name, old, new, nth=0):
    """Edit of the nth occurrence of old inside the named function."""
    i = S.index('def ' + name)
    for _ in range(nth + 1):
        i = S.index(old, i) + 1
    i -= 1
    # grow the context until unique
    a, b = i, i + len(old)
    while S.count(S[a:b]) > 1:
        a = max(0, a - 40)
        b = min(len(S), b + 40) if a == 0 else b
    return (P, S[a:b], S[a:b].replace(old, new) if S[a:b].count(old) == 1
            else S[a:i] + new + S[i + len(old):b])


MPLSAVE = '''                    plt.savefig(filename_output + "." + t, format=t)
'''
BLOCK = S[S.index('        if save_fig:\n', SEA):S.index('        if display:\n', SEA)]
PBLOCK = S[S.index('        if save_fig:\n', S.index('pio.', SEA) - 600):S.index('        if display:\n', S.index('pio.', SEA))]
PBLOCK = PBLOCK[PBLOCK.rindex('        if save_fig:\n'):]
HELP = '''def _write(fig_type, filename, default, writer):
    name = default if filename is None else filename
    for t in fig_type.split("+"):
        writer(name, t)


def plot_search_space('''

EDITS = [
 ('03-b-savealways', 'C03', [within('plot_fit', 'if save_fig:', 'if save_fig or filename is not None:')]),
 ('03-b-display-elif', 'C03', [within('plot_arc', 'if display:', 'if display and not save_fig:')]),
 ('03-b-show-renderer', 'C03', [within('plot_arc', '''            else:
                fig.show(renderer)''', '''        if renderer != "default":
            fig.show(renderer)''')]),
 ('03-b-wrongdefault', 'C03', [within('plot_fit', '"rascal_solution"', '"rascal_arc"', 1)]),
 ('03-b-html', 'C03', [within('plot_fit', 'pio.write_html(fig, filename_output + "." + t)', 'pio.write_html(fig, filename_output + ".html")')]),
 ('03-b-break', 'C03', [within('plot_fit', MPLSAVE, MPLSAVE + '                    break\n')]),
 ('03-b-nosvg', 'C03', [within('plot_search_space', '["jpg", "png", "svg", "pdf"]', '["jpg", "png", "pdf"]', 1)]),
 ('03-b-elif-if', 'C03', [within('plot_search_space', 'elif t in ["jpg", "png", "svg", "pdf"]', 'if t in ["jpg", "png", "svg", "pdf"] and len(fig_type) == 1')]),
 ('03-b-any', 'C03', [within('plot_arc', 'if t in ["jpg", "png", "svg", "pdf"]:', 'if t:')]),
 ('03-b-fmt', 'C03', [within('plot_arc', 'format=t)', 'format=fig_type[0])')]),
 ('03-b-name-strip', 'C03', [within('plot_arc', 'filename_output = filename\n', 'filename_output = filename.split(".")[0]\n')]),
 ('03-b-name-first', 'C03', [within('plot_arc', 'filename_output + "." + t', 'filename_output + "." + fig_type[0]')]),
 ('03-b-none-swap', 'C03', [within('plot_arc', 'if filename is None:', 'if filename is not None:')]),
 ('03-b-autoopen', 'C03', [within('plot_arc', 'pio.write_html(fig, filename_output + "." + t)', 'pio.write_html(fig, filename_output + "." + t, auto_open=True)')]),
 ('03-b-savejson', 'C03', [within('plot_arc', '        if return_jsonstring:\n', '        if return_jsonstring:\n            pio.write_json(fig, "arc.json")\n')]),
 ('03-b-earlyjson', 'C03', [within('plot_arc', '        if save_fig:\n', '        if return_jsonstring:\n            return fig.to_json()\n\n        if save_fig:\n', 1)]),
 ('03-b-showfit', 'C03', [(C, '        self.ht.bin_hough_points(self.xbins, self.ybins)', '        self.ht.bin_hough_points(self.xbins, self.ybins)\n        self.ht.save()')]),
 ('03-b-hough-disk', 'C03', [(H, '''            if to_disk:
                with open(filename + ".json", "w+") as f:
                    json.dump(output_json, f)
''', '''            with open(filename + ".json", "w+") as f:
                json.dump(output_json, f)
''')]),
 ('03-b-hough-elif', 'C03', [(H, '''        if "json" in fileformat_split:
            output_json''', '''        elif "json" in fileformat_split:
            output_json''')]),
 ('03-b-hough-name', 'C03', [(H, 'open(filename + ".json", "w+")', 'open("hough_transform.json", "w+")')]),
 ('03-b-hough-delim', 'C03', [(H, 'fileformat.split(delimiter)', 'fileformat.split("+")')]),
 ('03-b-hough-append', 'C03', [(C, '''        return self.ht.save(
            filename=filename,''', '''        return self.ht.save(
            filename=filename + "_" + fileformat,''')]),
 ('03-b-calibrator', 'C03', [(C, '''            save_fig=save_fig,
            fig_type=fig_type,
            filename=filename,
            return_jsonstring=return_jsonstring,
            renderer=renderer,
            display=display,
        )

    def plot_fit''', '''            save_fig=save_fig or filename is not None,
            fig_type=fig_type,
            filename=filename,
            return_jsonstring=return_jsonstring,
            renderer=renderer,
            display=display,
        )

    def plot_fit''')]),
 # behaviour kept
 ('03-r-fstring', 'none', [within('plot_arc', 'filename_output + "." + t', 'f"{filename_output}.{t}"'),
                           within('plot_fit', 'filename_output + "." + t', '"{}.{}".format(filename_output, t)'),
                           within('plot_search_space', 'filename_output + "." + t', '"%s.%s" % (filename_output, t)')]),
 ('03-r-ternary', 'none', [within('plot_fit', '''            if filename is None:
                filename_output = "rascal_solution"

            else:
                filename_output = filename
''', '''            filename_output = "rascal_solution" if filename is None else filename
''')]),
 ('03-r-or', 'none', [within('plot_fit', '''            if filename is None:
                filename_output = "rascal_solution"

            else:
                filename_output = filename
''', '''            filename_output = filename or "rascal_solution"
''')]),
 ('03-r-early', 'none', [within('plot_arc', '''            for t in fig_type:
                if t == "iframe":
                    pio.write_html(fig, filename_output + "." + t)

                elif t in ["jpg", "png", "svg", "pdf"]:
                    pio.write_image(fig, filename_output + "." + t)
''', '''            for t in fig_type:
                out = filename_output + "." + t
                if t in ("jpg", "png", "svg", "pdf"):
                    pio.write_image(fig, out)
                    continue
                if t != "iframe":
                    continue
                pio.write_html(fig, file=out)
''')]),
 ('03-r-figmethod', 'none', [within('plot_arc', 'pio.write_image(fig, filename_output + "." + t)', 'fig.write_image(filename_output + "." + t)')]),
 ('03-r-comp', 'none', [within('plot_arc', '''            for t in fig_type:
                if t in ["jpg", "png", "svg", "pdf"]:
''', '''            wanted = [t for t in fig_type if t in {"jpg", "png", "svg", "pdf"}]
            for t in wanted:
                if True:
''')]),
 ('03-r-helper', 'none', [(P, BLOCK, '''        if save_fig:
            _write(fig_type, filename, "rascal_hough_search_space", _mpl)

'''), (P, 'def plot_search_space(', '''def _mpl(name, t):
    if t in ["jpg", "png", "svg", "pdf"]:
        plt.savefig(name + "." + t, format=t)


''' + HELP)]),
 ('03-r-show', 'none', [within('plot_arc', '''            if renderer == "default":
                fig.show()

            else:
                fig.show(renderer)
''', '''            shown_with = () if renderer == "default" else (renderer,)
            fig.show(*shown_with)
''')]),
 ('03-r-invert', 'none', [within('plot_arc', '''            if renderer == "default":
                fig.show()

            else:
                fig.show(renderer)
''', '''            fig.show(renderer if renderer != "default" else None)
''')]),
 ('03-r-hough', 'none', [(H, '''            if to_disk:
                with open(filename + ".json", "w+") as f:
                    json.dump(output_json, f)
''', '''            if to_disk:
                path = f"{filename}.json"
                f = open(path, mode="w")
                try:
                    json.dump(output_json, f)
                finally:
                    f.close()
''')]),
 ('03-r-const', 'none', [(P, 'def plot_search_space(', 'IMAGES = ("jpg", "png", "svg", "pdf")\n\n\ndef plot_search_space('), within('plot_fit', '["jpg", "png", "svg", "pdf"]', 'IMAGES'), within('plot_fit', '["jpg", "png", "svg", "pdf"]', 'IMAGES', 1)]),
]
