C = 'calibrator.py'; H = 'houghtransform.py'; S = 'synthetic.py'; A = 'atlas.py'; U = 'util.py'; P = 'plotting.py'; M = 'models.py'
ARC = '''        return plotting.plot_arc(
            self,
            pixel_list=pixel_list,
            log_spectrum=log_spectrum,
            save_fig=save_fig,
            fig_type=fig_type,
            filename=filename,
            return_jsonstring=return_jsonstring,
            renderer=renderer,
            display=display,
        )'''
SAVE = '''        return self.ht.save(
            filename=filename,
            fileformat=fileformat,
            delimiter=delimiter,
            to_disk=to_disk,
        )'''
USER = '''        self.atlas.add_user_atlas(
            elements,
            wavelengths,
            intensities,
            vacuum,
            pressure,
            temperature,
            relative_humidity,
        )'''
ADD = '''            self.atlas.add(
                elements,
                min_atlas_wavelength=min_atlas_wavelength,
                max_atlas_wavelength=max_atlas_wavelength,
                min_intensity=min_intensity,
                min_distance=min_distance,
                vacuum=vacuum,
                pressure=pressure,'''
EDITS = [
    ('19-swap-pos', 'C19', [(C, USER, USER.replace('pressure,\n            temperature', 'temperature,\n            pressure'))]),
    ('19-drop-int', 'C19', [(C, USER, USER.replace('            intensities,\n', '            None,\n'))]),
    ('19-drop-min', 'C19', [(C, ADD, ADD.replace('                min_intensity=min_intensity,\n', ''))]),
    ('19-const-vac', 'C19', [(C, ADD, ADD.replace('vacuum=vacuum', 'vacuum=False'))]),
    ('19-noreturn', 'C19', [(C, SAVE, SAVE.replace('return ', ''))]),
    ('19-return-flag', 'C19', [(C, SAVE, SAVE.replace('return ', 'out = ') + '''
        if not to_disk and delimiter == "+":
            return out''')]),
    ('19-delim', 'C19', [(C, SAVE, SAVE.replace('            delimiter=delimiter,\n', ''))]),
    ('19-arc-display', 'C19', [(C, ARC, ARC.replace('display=display', 'display=display and not save_fig'))]),
    ('19-arc-if', 'C19', [(C, ARC, '        if display or save_fig:\n' + '\n'.join('    ' + l for l in ARC.split('\n')))]),
    ('19-renderer', 'C19', [(C, '''            tolerance=tolerance,
            plot_atlas=plot_atlas,
            log_spectrum=log_spectrum,
            save_fig=save_fig,
            fig_type=fig_type,
            filename=filename,
            return_jsonstring=return_jsonstring,
            renderer=renderer,''', '''            tolerance=tolerance,
            plot_atlas=plot_atlas,
            log_spectrum=log_spectrum,
            save_fig=save_fig,
            fig_type=fig_type,
            filename=filename,
            return_jsonstring=return_jsonstring,''')]),
    ('19-atlas-linelist', 'C19', [(A, '                linelist=linelist,\n', '')]),
    ('19-tolerance', 'C19', [(C, 'self.atlas.remove_atlas_lines_range(wavelength, tolerance)', 'self.atlas.remove_atlas_lines_range(wavelength)')]),
    ('19-tol-half', 'C19', [(C, 'self.atlas.remove_atlas_lines_range(wavelength, tolerance)', 'self.atlas.remove_atlas_lines_range(wavelength, tolerance / 2)')]),
    ('19-topn', 'C19', [(C, '            top_n_candidate=top_n_candidate,\n            weighted=weighted,\n            save_fig', '            top_n_candidate=self.top_n_candidate,\n            weighted=weighted,\n            save_fig')]),
    ('19-json-file', 'C19', [(C, 'self.ht.load(filename=filename, filetype=filetype)', 'self.ht.load(filename=filename, filetype=filename[-4:] if "." in filename else filetype)')]),
    ('19r-kwargs', 'none', [(C, ARC, '''        options = dict(
            pixel_list=pixel_list,
            log_spectrum=log_spectrum,
            save_fig=save_fig,
            fig_type=fig_type,
            filename=filename,
            return_jsonstring=return_jsonstring,
            renderer=renderer,
            display=display,
        )
        return plotting.plot_arc(self, **options)''')]),
    ('19r-helper', 'none', [(C, ARC, ARC.replace('plotting.plot_arc(', '_call(plotting.plot_arc,')), (C, 'class Calibrator:', '''def _call(function, *args, **kwargs):
    return function(*args, **kwargs)


class Calibrator:''')]),
    ('19r-method', 'none', [(C, ARC, ARC.replace('plotting.plot_arc(', 'self._draw("plot_arc",').replace('self,\n            pix', 'pix')), (C, '    def _generate_pairs(self):', '''    def _draw(self, name, **kwargs):
        return getattr(plotting, name)(self, **kwargs)

    def _generate_pairs(self):''')]),
    ('19r-var', 'none', [(C, SAVE, SAVE.replace('return ', 'out = ') + '''
        return out''')]),
    ('19r-kw', 'none', [(C, USER, USER.replace('            pressure,', '            pressure=pressure,').replace('            temperature,', '            temperature=temperature,').replace('            relative_humidity,', '            relative_humidity=relative_humidity,'))]),
    ('19d-int', 'C19', [(C, '        min_intensity=10.0,\n        min_distance=10.0,\n        candidate', '        min_intensity=15.0,\n        min_distance=10.0,\n        candidate')]),
    ('19d-tol', 'C19', [(C, 'def remove_atlas_lines_range(self, wavelength, tolerance=10):', 'def remove_atlas_lines_range(self, wavelength, tolerance=1):')]),
    ('19dx-float', 'none', [(C, 'def remove_atlas_lines_range(self, wavelength, tolerance=10):', 'def remove_atlas_lines_range(self, wavelength, tolerance=10.0):')]),
]
