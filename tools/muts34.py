P = 'plotting.py'
R1 = "            residual = x - calibrator.polyval(p, fit_coeff)\n"
FA = "            fitted_diff.append(residual)\n"
RMS = "        rms = np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))\n\n"
RMSP = RMS[:-1] + "        fig.add_trace(\n"
DI = """            diff = calibrator.atlas.get_lines() - x
            idx = np.argmin(np.abs(diff))
            all_diff.append(diff[idx])
"""
FP = "                fitted_diff.append(diff[idx])\n"
WAVE = "    wave = calibrator.polyval(calibrator.pixel_list, fit_coeff)\n"
S3 = """        ax3.scatter(
            calibrator.polyval(fitted_peaks, fit_coeff),
            fitted_peaks,
"""
S2 = """        ax2.scatter(
            calibrator.polyval(fitted_peaks, fit_coeff),
            fitted_diff,
"""
SS = """            plt.scatter(
                calibrator.peaks,
                calibrator.polyval(calibrator.peaks, fit_coeff),
"""
SSP = """                    x=calibrator.peaks,
                    y=calibrator.polyval(calibrator.peaks, fit_coeff),
"""
CUR = "        ax3.plot(wave, calibrator.pixel_list, color=\"C2\", label=\"Solution\")\n"
PAIR = """            *calibrator.pairs.T, alpha=0.2, color="C0", label="All pairs"
"""
PAIRP = """                x=calibrator.pairs[:, 0],
                y=calibrator.pairs[:, 1],
"""
CANDP = """                x=calibrator._merge_candidates(calibrator.candidates)[:, 0],
                y=calibrator._merge_candidates(calibrator.candidates)[:, 1],
"""
BEST = """            candidate_peak,
            candidate_arc,
            color="C2",
"""
HL = """            calibrator.max_wavelength - calibrator.range_tolerance,
            0,
"""
HLP = """                y=[
                    calibrator.max_wavelength - calibrator.range_tolerance,
                    calibrator.max_wavelength - calibrator.range_tolerance,
                ],
"""
ARCL = """                    np.log10(calibrator.spectrum / calibrator.spectrum.max()),
                    label="Arc Spectrum",
"""
ARCP = "                    y=list(calibrator.spectrum / calibrator.spectrum.max()),\n"
VL = """        for i in calibrator.peaks:
            fig.add_shape(
                type="line",
                xref="x",
                yref="y",
                x0=i,
                y0=0,
                x1=i,
"""

HLS = """        plt.hlines(
            calibrator.max_wavelength,
            0,
            calibrator.pixel_list.max(),
            color="k",
        )
        plt.hlines(
            calibrator.max_wavelength + calibrator.range_tolerance,
            0,
            calibrator.pixel_list.max(),
            linestyle="dashed",
            alpha=0.5,
            color="k",
        )
        plt.hlines(
            calibrator.max_wavelength - calibrator.range_tolerance,
            0,
            calibrator.pixel_list.max(),
            linestyle="dashed",
            alpha=0.5,
            color="k",
        )
"""
EDITS = [
('34-resid-zero', 'C34', [(P, R1, R1.replace('x - calibrator.polyval(p, fit_coeff)', 'diff[idx]'))]),
('34-resid-own', 'C34', [(P, R1, R1.replace('fit_coeff', 'calibrator.fit_coeff'))]),
('34-resid-pix', 'C34', [(P, R1, R1.replace('calibrator.polyval(p, fit_coeff)', 'p'))]),
('34-resid-half', 'C34', [(P, R1, R1.replace('calibrator.polyval(p, fit_coeff)', '0.5 * calibrator.polyval(p, fit_coeff)'))]),
('34-resid-abs', 'none', [(P, R1, R1.replace('x - calibrator.polyval(p, fit_coeff)', 'abs(x - calibrator.polyval(p, fit_coeff))'))]),
('34-resid-neg', 'none', [(P, R1, R1.replace('x - calibrator.polyval(p, fit_coeff)', '-(calibrator.polyval(p, fit_coeff) - x)'))]),
('34-resid-order', 'none', [(P, FA, ''), (P, "            fitted_peaks.append(p)\n            calibrator.logger.info(\n", "            fitted_diff.append(residual)\n            fitted_peaks.append(p)\n            calibrator.logger.info(\n")]),
('34-diff-idx', 'C34', [(P, FP, FP.replace('[idx]', '[0]'))]),
('34-diff-x', 'C34', [(P, FP, FP.replace('diff[idx]', 'x'))]),
('34-all-diff', 'C34', [(P, "                y=fitted_diff,\n", "                y=all_diff,\n")]),
('34-all-rms', 'C34', [(P, RMSP, RMSP.replace('fitted_diff', 'all_diff'))]),
('34-rms-std', 'C34', [(P, RMS, RMS.replace('np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))', 'np.std(fitted_diff)'))]),
('34-rms-sum', 'C34', [(P, RMS, RMS.replace('mean', 'sum'))]),
('34-rms-median', 'C34', [(P, RMS, RMS.replace('mean', 'median'))]),
('34-rms-peaks', 'C34', [(P, RMS, RMS.replace('fitted_diff', 'fitted_peaks'))]),
('34-rms-ok', 'none', [(P, RMS, RMS.replace('np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))', 'np.mean(np.square(fitted_diff)) ** 0.5'))]),
('34-rms-one', 'none', [(P, RMS, RMS.replace('        rms = np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))', '        squares = np.array(fitted_diff) ** 2\n        rms = np.sqrt(squares.mean())'))]),
('34-wave-own', 'C34', [(P, WAVE, WAVE.replace('fit_coeff', 'calibrator.fit_coeff'))]),
('34-wave-peaks', 'C34', [(P, WAVE, WAVE.replace('pixel_list', 'peaks'))]),
('34-scatter-peaks', 'C34', [(P, S3, S3.replace('            fitted_peaks,\n', '            calibrator.peaks,\n'))]),
('34-scatter-swap', 'C34', [(P, S3, S3.replace('fitted_peaks, fit_coeff', 'fitted_diff, fit_coeff'))]),
('34-scatter2', 'C34', [(P, S2, S2.replace('(fitted_peaks,', '(calibrator.peaks,'))]),
('34-nosol', 'C34', [(P, CUR, '')]),
('34-ss-own', 'C34', [(P, SS, SS.replace('fit_coeff', 'calibrator.fit_coeff'))]),
('34-ss-matched', 'C34', [(P, SS, SS.replace('polyval(calibrator.peaks', 'polyval(calibrator.matched_peaks'))]),
('34-ssp-atlas', 'C34', [(P, SSP, SSP.replace('polyval(calibrator.peaks', 'polyval(calibrator.pixel_list'))]),
('34-pair-rows', 'C34', [(P, PAIR, PAIR.replace('*calibrator.pairs.T', 'calibrator.pairs[:, 0], np.sort(calibrator.pairs[:, 1])'))]),
('34-pair-cols', 'none', [(P, PAIR, PAIR.replace('*calibrator.pairs.T', 'calibrator.pairs[:, 0], calibrator.pairs[:, 1]'))]),
('34-pair-swap', 'C34', [(P, PAIRP, PAIRP.replace('[:, 0]', '[:, 9]').replace('[:, 1]', '[:, 0]').replace('[:, 9]', '[:, 1]'))]),
('34-cand-pairs', 'C34', [(P, CANDP, PAIRP)]),
('34-cand-local', 'none', [(P, "        fig.add_trace(\n            go.Scatter(\n" + CANDP, "        merged = calibrator._merge_candidates(calibrator.candidates)\n        fig.add_trace(\n            go.Scatter(\n                x=merged[:, 0],\n                y=merged[:, 1],\n")]),
('34-best-swap', 'C34', [(P, BEST, BEST.replace('candidate_peak', 'X').replace('candidate_arc', 'candidate_peak').replace('X', 'candidate_arc'))]),
('34-hl', 'C34', [(P, HL, HL.replace('max_w', 'min_w'))]),
('34-hlp', 'C34', [(P, HLP, HLP.replace(' - ', ' + '))]),
('34-y2', 'C34', [(P, "y=y_3,", "y=y_1,")]),
('34-arc-log', 'C34', [(P, ARCL, ARCL.replace('np.log10(calibrator.spectrum / calibrator.spectrum.max())', 'calibrator.spectrum / calibrator.spectrum.max()'))]),
('34-arc-norm', 'C34', [(P, ARCP, ARCP.replace('.max()', '.mean()'))]),
('34-arc-nonorm', 'C34', [(P, ARCP, ARCP.replace(' / calibrator.spectrum.max()', ''))]),
('34-arc-vl', 'C34', [(P, VL, VL.replace('in calibrator.peaks', 'in calibrator.matched_peaks'))]),
('34-arc-vl2', 'C34', [(P, VL, VL.replace('for i in calibrator.peaks', 'for i in calibrator.peaks[1:]'))]),
('34-arc-helper', 'none', [(P, "    if (pixel_list is None) and (calibrator.spectrum is not None):\n        pixel_list", "    if (calibrator.spectrum is not None) and (pixel_list is None):\n        pixel_list"), (P, ARCP, "                    y=list(np.asarray(calibrator.spectrum / np.max(calibrator.spectrum))),\n")]),
('34-hl-loop', 'none', [(P, HLS, """        for w in (calibrator.max_wavelength, calibrator.max_wavelength + calibrator.range_tolerance, calibrator.max_wavelength - calibrator.range_tolerance):
            plt.hlines(w, 0, np.max(calibrator.pixel_list), color="k")
""")]),
('34-hl-loop2', 'none', [(P, HLS, """        for offset in (0, calibrator.range_tolerance, -calibrator.range_tolerance):
            plt.hlines(calibrator.max_wavelength + offset, 0, x.max(), color="k")
""")]),
('34-hl-help', 'none', [(P, HLS, """        _level(calibrator, calibrator.max_wavelength)
        _level(calibrator, calibrator.max_wavelength + calibrator.range_tolerance)
        _level(calibrator, calibrator.max_wavelength - calibrator.range_tolerance)
"""), (P, "def plot_arc(", """def _level(calibrator, y):
    plt.hlines(y, 0, calibrator.pixel_list.max(), color="k")


def plot_arc(""")]),
('34-hl-ax', 'none', [(P, HLS, HLS.replace('plt.hlines', 'plt.gca().hlines'))]),
('34-hl-line', 'none', [(P, HLS, """        for w in (calibrator.max_wavelength, calibrator.max_wavelength + calibrator.range_tolerance, calibrator.max_wavelength - calibrator.range_tolerance):
            plt.axhline(w, color="k")
""")]),
('34-vl-arr', 'none', [(P, VL, VL.replace('for i in calibrator.peaks:', 'for n in range(len(calibrator.peaks)):\n            i = calibrator.peaks[n]'))]),
('34-vl-trace', 'none', [(P, VL[:VL.index('            fig')], VL[:VL.index('            fig')].replace('calibrator.peaks', 'list(calibrator.peaks)'))]),
('34-resid-comp', 'none', [(P, R1, ''), (P, FA, ''), (P, "            all_diff.append(residual)\n", ''), (P, "        rms = np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))\n\n        ax1", "        fitted_diff = np.asarray(calibrator.matched_atlas) - calibrator.polyval(np.asarray(calibrator.matched_peaks), fit_coeff)\n        rms = np.sqrt(np.mean(fitted_diff ** 2.0))\n\n        ax1")]),
('34-resid-comp2', 'none', [(P, FA, ''), (P, "        rms = np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))\n\n        ax1", "        fitted_diff = [a - calibrator.polyval(p, fit_coeff) for p, a in zip(calibrator.matched_peaks, calibrator.matched_atlas)]\n        rms = np.sqrt(np.mean(np.array(fitted_diff) ** 2.0))\n\n        ax1")]),
('34-mean-in', 'none', [(P, DI, DI.replace('calibrator.atlas.get_lines() - x', 'np.array(calibrator.atlas.get_lines()) - x').replace('np.argmin(np.abs(diff))', 'int(np.argmin(abs(diff)))'))]),
('34-near-x', 'none', [(P, DI, """            lines = np.asarray(calibrator.atlas.get_lines())
            idx = np.argmin(np.abs(lines - x))
            diff = lines - x
            all_diff.append(diff[idx])
""")]),
('34-near-bad', 'C34', [(P, DI, DI.replace('np.argmin(np.abs(diff))', 'np.argmin(diff)'))]),
('34-curve-one', 'none', [(P, CUR, CUR.replace('wave', 'calibrator.polyval(calibrator.pixel_list, fit_coeff)'))]),
('34-count-p', 'C34', [(P, "spectrum[int(calibrator.pix_to_rawpix(p))]", "spectrum[int(p)]")]),
('34-count-x', 'C34', [(P, "spectrum[int(calibrator.pix_to_rawpix(p))]", "spectrum[int(calibrator.pix_to_rawpix(x))]")]),
('34-count-all', 'C34', [(P, "                    calibrator.pix_to_rawpix(calibrator.peaks).astype(\"int\")", "                    np.asarray(calibrator.peaks).astype(\"int\")")]),
('34-count-m', 'C34', [(P, "                    calibrator.pix_to_rawpix(calibrator.peaks).astype(\"int\")", "                    calibrator.pix_to_rawpix(calibrator.matched_peaks).astype(\"int\")")]),
('34-count-ok', 'none', [(P, "spectrum[int(calibrator.pix_to_rawpix(p))]", "np.asarray(spectrum)[np.round(calibrator.pix_to_rawpix(p)).astype(int)]")]),
]
