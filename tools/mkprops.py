"""Regenerates /verif/properties.jsonl from the table below (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("R01", "Faraday dispersion function is the exact weighted transform of the data",
 "For any Stokes Q/U spectrum, plane or cube, channel wavelengths, non-negative channel weights (none meaning uniform, NaN meaning zero), flag pattern and Faraday-depth axis, the computed Faraday dispersion function of every pixel equals the sum over its unflagged channels of w(Q+iU)exp(-2i*phi*(lambda^2-lambda0^2)) divided by the sum of w over the same channels, to the requested precision, with lambda0^2 either the value asked for or the weighted mean of lambda^2 over channels that carry data. "
 "A pixel with no usable data comes out as NaN, every other pixel is finite and does not depend on its neighbours' values, and the result has one Faraday-depth sample per requested depth in the requested order with the spatial layout of the input. "
 "The caller's arrays are never modified.",
 ["inputs", "configurations"],
 "All array shapes (1, 2, 3 dimensions), both precisions, any monotone or irregular wavelength sampling, any flag pattern (none, whole channels, isolated voxels, whole pixels), any weights, any Faraday-depth axis including ones not centred on zero.",
 "One unit test compares two sampled spectra with a direct transform on a symmetric axis without flags; the end-to-end tests check a handful of numbers from one source. No test varies flags, weights, dimensions, precision or the Faraday-depth axis.",
 ["RMutils/util_RM.py"],
 [("weighting, flag masking, lambda0^2, NUFFT and per-pixel normalisation", "RMutils/util_RM.py: do_rmsynth_planes")],
 ["returned FDF cube and reference wavelength", "caller's input arrays before and after the call"])

prop("R02", "RMSF is the instrument response belonging to the same weights and flags",
 "For any channel wavelengths, weights, per-pixel flag mask and Faraday-depth axis, the RM spread function of each pixel is the weight-normalised transform of that pixel's unflagged channel weights, so that it is 1 at zero depth, never exceeds 1 in modulus, has conjugate symmetry in depth, and a Faraday-thin source of depth phi0 observed with the same flags gives a dispersion function equal to that response shifted by phi0. "
 "The response axis keeps the spacing and centre of the dispersion-function axis and spans at least twice its length, and results are replicated or computed per pixel consistently with the mask's layout. "
 "The reported main-lobe width is 3.8 divided by the wavelength-squared span unless a fit is requested, in which case a successful fit gives a positive width that matches the half-maximum width of the main lobe.",
 ["inputs", "configurations"],
 "All wavelength samplings, weights, 1/2/3-dimensional masks (uniform or with isolated flags), both precisions, fitted or theoretical width, ordinary or zero reference wavelength.",
 "One unit test compares a sampled unflagged RMSF with a direct sum; per-pixel masks, the shift identity, the padded axis and width fitting are only exercised for not crashing.",
 ["RMutils/util_RM.py"],
 [("RMSF calculation, axis padding, main-lobe fit", "RMutils/util_RM.py: get_rmsf_planes, extrap, fit_rmsf, detect_peak"),
  ("FDF counterpart for the shift identity", "RMutils/util_RM.py: do_rmsynth_planes")],
 ["returned RMSF cube, doubled depth axis, widths and fit status"])

prop("R03", "RM-CLEAN conserves flux: dirty = residual + model, clean = residual + restored",
 "For every pixel of any cleaned spectrum or cube, the dirty Faraday spectrum equals the residual plus the sum over depths of each clean component times the RM spread function centred on that component, and the cleaned spectrum equals the residual plus each clean component convolved with a unit-peak Gaussian of the main-lobe width. "
 "This holds for every gain, cutoff, iteration limit, window threshold, array dimensionality and precision, and whether or not the pixel was cleaned or is blank. "
 "The caller's dirty spectra, spread functions and axes are never modified.",
 ["inputs", "configurations"],
 "All dirty spectra (thin, multi-component, noisy, blank, emission at the axis edges), all response functions with uniform or per-pixel widths, all gains, cutoffs, windows, iteration limits, dimensionalities.",
 "The existing tests compare a few summary numbers of one cleaned source and check that the 3D tool exits; no test relates components, residual and dirty spectrum, nor covers windowed cleaning.",
 ["RMutils/util_RM.py"],
 [("Hogbom loop, shifted-RMSF subtraction, Gaussian restore", "RMutils/util_RM.py: do_rmclean_hogbom, RMcleaner, gauss1D")],
 ["returned clean, component, iteration-count and residual arrays"])

prop("R04", "RM-CLEAN stops and places components as asked, under any schedule",
 "Every pixel is cleaned exactly as far as asked: a pixel whose peak is below the cutoff (or blank) gets no components and no iterations, every other pixel ends with its residual peak below the cutoff or with the iteration limit used up, each iteration removes gain times the current peak at the current peak's depth, and the reported count is the number of iterations performed. "
 "With a window threshold, further components are placed only within half a main-lobe width of first-stage components and only until the residual inside that window falls below the threshold. "
 "The results for a pixel, including its iteration count, do not depend on the other pixels of the cube, the order of processing, the number of worker processes or the chunk size.",
 ["inputs", "schedules", "configurations"],
 "All cubes and parameters as above; serial execution and process pools of every size with every chunk size; all pixel orders.",
 "Tests run 3D cleaning once serially and look only at the exit status; no test inspects iteration counts, thresholds, windows or parallel runs.",
 ["RMutils/util_RM.py", "RMtools_3D/do_RMclean_3D.py"],
 [("cutoff and window loops, iteration counting", "RMutils/util_RM.py: RMcleaner"),
  ("work distribution over a process pool and result reassembly", "RMutils/util_RM.py: do_rmclean_hogbom")],
 ["returned arrays of serial, permuted and pooled runs"])

prop("R05", "Peak measurements are faithful to the spectrum and transform correctly",
 "For any Faraday spectrum with a finite interior peak, the reported depth and amplitude are the vertex of the parabola through the largest interior sample and its two neighbours, the signal-to-noise, bias-corrected amplitude, angles and their uncertainties are the documented functions of that vertex, the noise and the channel wavelengths, and both polarisation angles lie in [0,180) degrees and equal half the phase of the spectrum at the fitted depth, the second one rotated back by depth times reference wavelength squared. "
 "Scaling a spectrum and its noise scales amplitudes and leaves the rest unchanged, rotating its phase changes only angles, and conjugating while reversing depth negates the depth. "
 "A noiseless Faraday-thin source is recovered at its true depth, polarised intensity and intrinsic angle to within a small fraction of the sampling interval, and a fit that would fall outside the depth range, or whose parabola has a minimum, is reported as NaN rather than as a detection.",
 ["inputs"],
 "All spectra, depth axes, widths, noise levels (given or estimated), numbers of channels and reference wavelengths.",
 "One reference source is compared against stored numbers; edge peaks, angle wrapping, bias-correction threshold and equivariances are not sampled.",
 ["RMutils/util_RM.py", "RMutils/util_misc.py"],
 [("peak search, parabola vertex, noise estimate, angles and errors", "RMutils/util_RM.py: measure_FDF_parms"),
  ("three-point parabola", "RMutils/util_misc.py: calc_parabola_vertex, MAD, toscalar")],
 ["returned measurement dictionary"])

prop("R06", "Stokes I models and fractional spectra are faithful to the data",
 "For any Stokes I spectrum, errors, polynomial order from 0 to 5 and functional form (linear or log polynomial), the fitted model minimises the error-weighted squared misfit over the usable channels, reports the chi-squared, reduced chi-squared, AIC and parameter errors belonging to that fit over those channels, and recovers the exact coefficients of a spectrum that has that form; flagged channels have no influence, and with dynamic order selection orders are raised one at a time exactly as long as the AIC improves. "
 "Fractional spectra and their errors equal the data divided by the model (fitted, or supplied by the user) channel by channel with unusable channels NaN, and the status flags negative models and models below the noise. "
 "When a fit is impossible the failure is reported in the fit status, and where the fitter raised the model falls back to unity, rather than aborting.",
 ["inputs", "configurations"],
 "All spectra (positive, negative, faint, flagged, constant), error vectors, frequency samplings, orders -5..5, both functional forms, with and without a user-supplied model.",
 "Tests only exercise one power-law source with fixed order and compare stored coefficients; no test has flagged channels, dynamic order, linear form, negative models or failing fits.",
 ["RMutils/util_misc.py", "RMutils/mpfit.py"],
 [("fit set-up, order selection, goodness of fit", "RMutils/util_misc.py: fit_StokesI_model, fit_spec_poly5, poly5, powerlaw_poly5"),
  ("fractional spectra and status flags", "RMutils/util_misc.py: create_frac_spectra, calculate_StokesI_model"),
  ("Levenberg-Marquardt minimiser", "RMutils/mpfit.py: mpfit")],
 ["fit result, model spectrum, fractional spectra"])

prop("R07", "Changing a Stokes I model's reference frequency never changes the model",
 "For any fitted Stokes I model of either functional form and any new reference frequency, the rescaled model has the same value at every frequency, keeps its order and fit statistics, and reports the new reference frequency. "
 "Its parameter uncertainties are the first-order propagation of the original covariance through the change of parameters, and rescaling there and back restores the original parameters.",
 ["inputs"],
 "All parameter vectors (including negative and zero coefficients), covariances, both forms, all positive frequency ratios.",
 "No test calls the conversion on its own; the end-to-end run moves the reference frequency by a tiny ratio where every error term vanishes.",
 ["RMutils/util_misc.py"],
 [("analytic parameter and error conversion", "RMutils/util_misc.py: renormalize_StokesI_model")],
 ["returned model, evaluated spectrum and parameter errors"])

prop("R08", "1D RM synthesis reports a consistent, correct account of the source",
 "For any ordered 1D spectrum (with or without Stokes I, any flags, weighting, precision, order of channels), RM synthesis recovers an injected noiseless Faraday-thin source's depth, polarised intensity, fraction and intrinsic angle, and every reported quantity (reference wavelength and frequency, Stokes I there, theoretical noise, channel statistics, spectrum and response arrays) equals its definition evaluated on the unflagged channels, while the theoretical width and the default depth axis are those of all listed channels. "
 "Flagging a channel (NaN in Q, U or both) gives, on the same depth axis, the same spectrum, response and noise as deleting it, reversing the channel order changes nothing, and multiplying all Stokes parameters and errors by a constant scales intensities and leaves depths, angles, fractions and complexity unchanged. "
 "The Faraday-depth axis is uniform, symmetric about an exactly central zero, and honours the requested maximum, spacing or samples per beam.",
 ["inputs", "configurations"],
 "All spectra, error vectors, flag patterns, weighting schemes, precisions, axis options, Stokes I models and super-resolution settings.",
 "Two end-to-end runs of one source are compared with stored numbers; flags, uniform weights, no-Stokes-I input, scaling and ordering are not varied.",
 ["RMtools_1D/do_RMsynth_1D.py", "RMutils/util_RM.py", "RMutils/util_misc.py"],
 [("pipeline, depth-axis construction, weights, noise, reference frequency", "RMtools_1D/do_RMsynth_1D.py: run_rmsynth")],
 ["returned measurement and array dictionaries"])

prop("R09", "1D results written to disk reproduce the in-memory results",
 "For every 1D run, the saved spectrum, response, weights, key=value and JSON files contain, to printed precision, exactly the arrays and measurements the run computed, for every value type including missing ones, and reading an input table back gives its columns in order at the chosen precision for both accepted layouts. "
 "Feeding the saved synthesis products to 1D cleaning gives the same result as cleaning in memory, and running the command-line tools gives the same products as calling the library. "
 "Nothing is written unless saving is requested, and input files are never altered.",
 ["inputs", "configurations"],
 "All tables (5 or 7 columns, comments, NaNs), precisions, and command-line options that change results.",
 "The tests check that files appear and compare a few JSON numbers for one run; they never read back arrays or vary options.",
 ["RMtools_1D/do_RMsynth_1D.py", "RMtools_1D/do_RMclean_1D.py"],
 [("table reader and product writers", "RMtools_1D/do_RMsynth_1D.py: readFile, saveOutput, main"),
  ("product reader and clean writers", "RMtools_1D/do_RMclean_1D.py: readFiles, saveOutput, main")],
 ["files written by the tools"])

prop("R10", "1D RM-CLEAN honours its thresholds and reports what it did",
 "For any dirty spectrum and response, 1D cleaning with a positive cutoff cleans to that absolute level and with a negative cutoff to that multiple of the theoretical noise, the window threshold being interpreted the same way, and the reported cutoff, iteration count, component, residual and clean spectra agree with each other and with the underlying cleaning of that spectrum. "
 "The measurements reported for the clean spectrum are those of the clean spectrum using the theoretical noise, and the input dictionaries and arrays are left unmodified. "
 "Cleaning a noiseless thin source recovers its depth, amplitude and angle with total component flux equal to the source's up to the uncleaned residual.",
 ["inputs", "configurations"],
 "All spectra, cutoffs and windows of either sign, gains, iteration limits, precisions.",
 "One source cleaned with default settings is compared against stored summary values.",
 ["RMtools_1D/do_RMclean_1D.py", "RMutils/util_RM.py"],
 [("threshold conversion, invocation, measurement", "RMtools_1D/do_RMclean_1D.py: run_rmclean")],
 ["returned dictionaries and caller's inputs"])

prop("R11", "3D synthesis treats every pixel exactly as the 1D transform would",
 "For any pair of Stokes Q and U cubes, frequencies, per-channel noise vector, weighting, flags and optional Stokes I model, the dispersion function and spread function of each pixel equal those of that pixel's own spectrum synthesised alone with the same axis, weights and reference wavelength, so that no pixel is shifted, transposed, mixed with or scaled by another. "
 "With a Stokes I model the spectrum is that of the fractional data multiplied by the model's value at the reference frequency, and the peak-intensity and peak-depth maps are the maximum modulus and its depth in each pixel. "
 "Extracting a single pixel from three-axis FITS cubes (frequency third) and running the 1D tool uses exactly that pixel's spectrum with the requested options, and a position outside the image is refused.",
 ["inputs", "configurations"],
 "All cube shapes (including single-row and single-pixel), 3- and 4-axis layouts, axis options, weights, flags, precisions.",
 "Tests run one cube and look at its header and one pixel value; noise vectors, flags, non-square cubes, Stokes I models and 1D agreement are not covered.",
 ["RMtools_3D/do_RMsynth_3D.py", "RMtools_1D/do_RMsynth_1D_fromFITS.py", "RMutils/util_RM.py"],
 [("axis construction, weighting, Stokes I division and rescaling", "RMtools_3D/do_RMsynth_3D.py: run_rmsynth"),
  ("peak maps", "RMtools_3D/do_RMsynth_3D.py: find_freq_axis, writefits and peak-map code"),
  ("single-pixel extraction", "RMtools_1D/do_RMsynth_1D_fromFITS.py: main, get_data_Q_U")],
 ["returned arrays, written FITS cubes and maps"])

prop("R12", "3D products on disk are complete and correctly described",
 "For any input layout (frequency on the third or fourth axis, degenerate axes, any pixel size and reference pixel, axes described by CRPIX, CRVAL and CDELT), the written cubes hold exactly the computed real, imaginary and total values, whether written as separate files or as extensions of one file, and the modulus cube equals the root sum of squares of the other two. "
 "The header of each product places the depth axis where the frequency axis was, so that the depth of every plane computed from the header equals the axis the cube was computed on, while sky coordinates of every pixel remain those of the input. "
 "The cleaning tool reading the separate files, named by any one of them, recovers the same arrays and axes.",
 ["inputs", "configurations"],
 "All axis orders, degenerate axes, pixel scales, file-layout options and output switches.",
 "The test reads back one header set for one 3-axis cube; four-axis layouts, combined files and read-back are not covered.",
 ["RMtools_3D/do_RMsynth_3D.py", "RMtools_3D/do_RMclean_3D.py", "RMutils/util_misc.py", "RMutils/util_RM.py"],
 [("header construction and writing", "RMtools_3D/do_RMsynth_3D.py: writefits, readFitsCube, find_freq_axis"),
  ("reading FDF/RMSF products", "RMtools_3D/do_RMclean_3D.py: read_FDF_cubes, readFitsCube"),
  ("linear axis from header", "RMutils/util_RM.py: fits_make_lin_axis")],
 ["FITS files on disk", "arrays read back by the cleaning tool"])

prop("R13", "3D RM-CLEAN of files equals cleaning each pixel, under any schedule",
 "For any synthesis products on disk, the 3D cleaning tool writes clean, component and iteration-count products (and returns residuals) whose every pixel equals cleaning that pixel's dirty spectrum with its own spread function and the axes and widths in the files, stored in the same layout and with the same sky and depth coordinates as the input. "
 "The products are the same for any number of worker processes and chunk size and for separate or combined output files. "
 "Input products are never altered.",
 ["inputs", "schedules", "configurations"],
 "All cubes, layouts, cutoffs, gains, windows, worker counts and chunk sizes.",
 "One cube is cleaned serially and only the existence and shape of outputs is checked.",
 ["RMtools_3D/do_RMclean_3D.py", "RMutils/util_RM.py"],
 [("reading, cleaning and writing cubes", "RMtools_3D/do_RMclean_3D.py: run_rmclean, writefits, read_FDF_cubes, main")],
 ["FITS files written by serial and parallel runs"])

prop("R14", "Splitting a FITS cube into chunks and reassembling it loses and moves nothing",
 "For any 2-, 3- or 4-axis FITS file and any chunk size, splitting writes every pixel of the image exactly once, in order, each chunk holding no more than the requested number of pixels, and reassembling the chunks (or products computed from them, with any number of planes) restores every value to its original pixel and the original image geometry. "
 "Processing chunk by chunk and reassembling gives the same cube as processing the whole image, provided every channel carries data in each chunk. "
 "The original file is never altered.",
 ["inputs", "configurations"],
 "All image shapes, numbers of axes, chunk sizes from one pixel to more than the whole image, data types, memory-mapped or not.",
 "One cube is split and reassembled with one chunk size and only the exit status is checked.",
 ["RMtools_3D/create_chunks.py", "RMtools_3D/assemble_chunks.py"],
 [("splitting", "RMtools_3D/create_chunks.py: main"), ("reassembly", "RMtools_3D/assemble_chunks.py: main")],
 ["chunk files and reassembled file on disk"])

prop("R15", "Region extraction returns exactly the requested sub-cube, correctly located",
 "For any FITS image or cube and any pixel box (one-indexed, inclusive, optionally with a plane range), the extracted file holds exactly the values inside the box in the same order. "
 "Its header describes the extracted shape, and the world coordinates of every extracted pixel and plane equal those of the same pixel in the original. "
 "The original file is never altered.",
 ["inputs", "configurations"],
 "All numbers of axes (2 to 4), boxes including single pixels and full extents, plane ranges, reference pixels, output options.",
 "One box of one cube is extracted and only the exit status is checked.",
 ["RMtools_3D/extract_region.py"],
 [("box slicing and header update", "RMtools_3D/extract_region.py: extract_subregion and main")],
 ["extracted FITS file"])

prop("R16", "Frequency axes are read from FITS headers exactly",
 "For any FITS header with a frequency axis in any position, the derived channel-frequency list has one entry per channel and each equals the header's linear world coordinate of that channel, and the text file written for it reads back to the same values. "
 "Linear axes rebuilt from a header (any axis, any reference pixel, increment of either sign) have exactly as many entries as the axis has pixels.",
 ["inputs"],
 "All reference pixels, increments (either sign), channel counts, axis positions and magnitudes.",
 "One header is tested; channel-count rounding, descending axes and axis position are not.",
 ["RMtools_3D/make_freq_file.py", "RMutils/util_RM.py"],
 [("world coordinates to frequency list", "RMtools_3D/make_freq_file.py: get_freq_array, save_freq_file"),
  ("linear axis from header", "RMutils/util_RM.py: fits_make_lin_axis")],
 ["returned arrays and written frequency file"])

prop("R17", "Stokes I cube fitting gives each pixel its own fit, for any number of workers",
 "For any floating-point Stokes I cube, frequencies, mask threshold, order and functional form, the coefficient, error, reference-frequency, model, noise and mask products hold for every pixel inside the mask exactly the fit of that pixel's own spectrum with the measured channel noise; pixels outside the mask are blank in all fit products, and a pixel without any data has a blank model. "
 "The model cube evaluated from the coefficient and reference-frequency maps reproduces the model product, which keeps the frequency axis and, like the maps, the sky coordinates of the input. "
 "Results do not depend on the number of worker processes, the order in which they finish, or whether progress is displayed.",
 ["inputs", "schedules", "configurations"],
 "All cubes (flagged planes and pixels, noise-only pixels), orders -5..5, both forms, worker counts, verbosity.",
 "One test checks that two runs with and without verbosity agree on one small cube; no test checks values against per-pixel fits or the other products.",
 ["RMtools_3D/do_fitIcube.py", "RMutils/util_misc.py"],
 [("masking, noise estimate, per-pixel fitting over processes, product assembly", "RMtools_3D/do_fitIcube.py: make_model_I, fit_spectrum, cube_noise, savefits_*")],
 ["returned arrays and FITS products"])

prop("R18", "Rescaling Stokes I coefficient maps preserves each pixel's model",
 "For any set of coefficient, error and covariance maps and any new reference frequency (given, or taken per pixel from a synthesis product), every pixel's rescaled coefficients describe the same Stokes I spectrum as before and its errors are the propagated ones, equal to rescaling that pixel on its own. "
 "Blank pixels stay blank, the written maps carry the new reference frequency, and the number of worker processes does not matter.",
 ["inputs", "schedules", "configurations"],
 "All maps, orders 0..5, both functional forms, target frequencies, worker counts.",
 "One run on the products of one cube is checked for exit status only.",
 ["RMtools_3D/rescale_I_model_3D.py", "RMutils/util_misc.py"],
 [("reading, per-pixel rescaling over processes, writing", "RMtools_3D/rescale_I_model_3D.py: rescale_I_pixel, rescale_I_model_3D, write_new_parameters, read_data")],
 ["FITS maps before and after"])

prop("R19", "Peak-fit maps equal the 1D measurement of each pixel",
 "For any dispersion-function cube, frequencies, weights and noise, each pixel of each output map equals the corresponding 1D measurement of that pixel's spectrum with its width and noise, under the right file name and units, and pixels that cannot be measured are blank without disturbing others. "
 "The maps keep the shape and sky coordinates of the input cube, degenerate image axes and single-axis (chunked) layouts included, and the input files are left as they were.",
 ["inputs", "configurations"],
 "All cubes (blank pixels, chunked 2-axis layouts, non-square), noise given or estimated, with or without Stokes I.",
 "One cube is processed and only the exit status is checked.",
 ["RMtools_3D/RMpeakfit_3D.py", "RMutils/util_RM.py"],
 [("pixel loop, map assembly and writing", "RMtools_3D/RMpeakfit_3D.py: pixelwise_peak_fitting, save_maps, main")],
 ["written FITS maps and returned products"])

prop("R20", "Each QU model evaluates its published formula",
 "For every shipped QU-fitting model, all parameter values in its prior range and all positive wavelengths, the predicted complex polarisation equals the published formula for that model as computed independently, including its limits: components add linearly, vanishing dispersion or slab thickness reduces to the simpler model, fractional polarisation scales linearly and an intrinsic angle rotates the phase by twice itself. "
 "The modulus never exceeds the sum of the fractional polarisations, and every parameter the model uses has a prior under the same key. "
 "Draws from the priors never exceed a total fractional polarisation of one and keep the stated order of depths, and a model file in the working directory is preferred to the shipped one.",
 ["inputs", "configurations"],
 "All ten models, all parameter values drawn from the priors, all wavelength sets.",
 "No test evaluates any model function: the QU-fitting test stops before fitting.",
 ["RMtools_1D/models_ns/m1.py", "RMtools_1D/models_ns/m2.py", "RMtools_1D/models_ns/m3.py", "RMtools_1D/models_ns/m4.py", "RMtools_1D/models_ns/m5.py", "RMtools_1D/models_ns/m6.py", "RMtools_1D/models_ns/m7.py", "RMtools_1D/models_ns/m11.py", "RMtools_1D/models_ns/m111.py", "RMtools_1D/models_ns/m12.py"],
 [("model functions and priors", "RMtools_1D/models_ns/*.py: model, priors")],
 ["returned complex spectra and prior names"])

prop("R21", "QU fitting uses the right likelihood and recovers the source",
 "For any spectrum and model, the likelihood used in QU fitting is the Gaussian likelihood of the fractional Q and U data given their own errors over usable channels, up to a constant that does not depend on the parameters, so the posterior of a well-determined source contains its true parameters and the reported best fit, uncertainties, chi-squared, AIC/AICc/BIC and evidence belong to the model, the data and the posterior the sampler returned. "
 "Flagged values count neither in the likelihood nor in the statistics, parameters the model fixes keep their values, the saved result files agree with each other, angles are reported in [0,180) with wrap-safe uncertainties, and a repeated run after the data changed reports the new data.",
 ["inputs", "configurations"],
 "All spectra and errors (Q and U errors different), models, samplers available offline.",
 "The existing test passes without performing a fit.",
 ["RMtools_1D/do_QUfit_1D_mnest.py"],
 [("likelihood, sampling, summary statistics", "RMtools_1D/do_QUfit_1D_mnest.py: lnlike_call, chisq_model, run_qufit, wrap_arr")],
 ["likelihood values, saved files"])

prop("R22", "Bandwidth-depolarisation operators equal the channel-averaged rotation",
 "For any channel centre, width and Faraday depth (zero depth included), the rotation operator equals the average over the channel's frequency range of exp(2i*phi*lambda^2), its modulus is at most 1 and negative depth gives the conjugate, and the simulated source is that operator at every channel. "
 "The corrected synthesis of any spectrum equals the weighted sum of the data against the conjugate operators over unflagged channels, the sensitivity and noise curves are the documented sums over channels, and a bandwidth-depolarised thin source is recovered at its true depth, intensity and angle; a spectrum whose peak lies beyond the ends of its depth axis has a blank peak rather than a false one. "
 "All documented input layouts (with or without Stokes I, with or without channel widths) are accepted.",
 ["inputs", "configurations"],
 "All channel layouts, depths of either sign, weights, flags, column layouts.",
 "Two command-line runs are checked for exit status only.",
 ["RMtools_1D/rmtools_bwdepol.py", "RMtools_1D/rmtools_bwpredict.py"],
 [("analytic channel integral", "RMtools_1D/rmtools_bwdepol.py: rotation_integral_limit, rotation_operator, analytical_chan_pol"),
  ("adjoint synthesis and theory curves", "RMtools_1D/rmtools_bwdepol.py: do_adjoint_rmsynth_planes, adjoint_theory, run_adjoint_rmsynth"),
  ("prediction tool", "RMtools_1D/rmtools_bwpredict.py: bwdepol_compute_predictions")],
 ["returned operators, spectra, curves and measurements"])

prop("R23", "Spectral-complexity metrics measure excess scatter and nothing else",
 "For any Q/U spectra and errors, the complexity measure of the data minus its thin-source model is the median of the extra scatter added to the stated errors, with its central 68 per cent interval, under the Gaussian likelihood and a scale-free prior on a grid up to the range of the data: a source that is exactly a thin source plus noise of the stated size gives a value consistent with zero, and injected extra scatter of a given size is recovered within its interval as often as the interval states. "
 "The measure is unchanged by the source's depth, angle and fraction and by channel order, scales with the data, flagged channels carry nothing, and the second moment of clean components about their mean depth is reported correctly and is invariant to depth shifts and scaling.",
 ["inputs"],
 "All spectra, error vectors, flags, thin-source parameters, extra-scatter levels, component lists.",
 "Reference values for one source are compared; no statistical behaviour or invariance is tested.",
 ["RMutils/util_RM.py", "RMutils/util_misc.py"],
 [("sigma_add likelihood", "RMutils/util_RM.py: calc_sigma_add, measure_qu_complexity, cdf_percentile"),
  ("second moment of clean components", "RMutils/util_RM.py: measure_fdf_complexity; RMutils/util_misc.py: calc_mom2_FDF"),
  ("thin-source residuals", "RMutils/util_misc.py: create_pqu_resid_RMthin, create_pqu_spectra_RMthin")],
 ["returned complexity dictionaries"])

prop("R24", "Simulated data match the catalogue they were made from",
 "For every catalogue entry, the simulated Stokes I, Q and U spectra equal the power law and the published depolarisation formula of the stated components (thin, externally dispersed, or layered) up to the stated noise, at the stated frequencies and, for cubes, at the stated sky position in a valid header with the stated beam. "
 "Columns of a catalogue entry are read in the documented order (fractional polarisation, angle, depth, dispersion). "
 "Flagged ranges are blank in the data but keep their frequencies, and running the synthesis tools on the simulated data recovers the catalogue's depth, fraction and angle.",
 ["inputs", "configurations"],
 "All catalogues (both model types, one or more components), frequency set-ups, noise levels and templates, flag ranges.",
 "One catalogue is run and only the exit status is checked.",
 ["RMtools_1D/mk_test_ascii_data.py", "RMtools_3D/mk_test_cube_data.py", "RMutils/util_misc.py"],
 [("spectra from components", "RMutils/util_misc.py: create_IQU_spectra_burn, create_pqu_spectra_burn, create_IQU_spectra_diff, create_pqu_spectra_diff, create_IQU_spectra_RMthin, split_repeat_lst, csv_read_to_list, twodgaussian"),
  ("file generation", "RMtools_1D/mk_test_ascii_data.py: create_IQU_ascii_data; RMtools_3D/mk_test_cube_data.py: create_IQU_cube_data")],
 ["returned spectra, written tables and cubes"])

prop("R25", "RMSF report and component-model prediction describe the actual set-up",
 "For any list of channel frequencies and weights (from a one- or two-column file, a separate weight file, or a frequency range), the RMSF report's theoretical width, measured width, largest scale, largest depth and first sidelobe are those of that channel set's response function, the plot draws that response, and the text beside it says the same as the printed report. "
 "The Q/U spectrum predicted from clean components (in flux units at the reference frequency), depth axis, reference wavelength and Stokes I coefficients of a log or linear model is the sum of the components' rotating contributions times the Stokes I model over its value at the reference frequency, so that predicting and re-synthesising reproduces the components' dispersion function, and predicting a cleaned source explains its data. "
 "Input files and arrays are left as they were.",
 ["inputs", "configurations"],
 "All channel sets, weights, axis options, component lists, Stokes I coefficients.",
 "One report is compared for one configuration; model prediction is not tested.",
 ["RMtools_1D/calculate_RMSF.py", "RMtools_1D/clean_model.py"],
 [("report", "RMtools_1D/calculate_RMSF.py: main, determine_RMSF_parameters"),
  ("prediction", "RMtools_1D/clean_model.py: calculate_QU_model, read_files, save_model")],
 ["printed report, returned and saved spectra"])

prop("R26", "The least-squares fitter returns a constrained minimum and its covariance",
 "For any smooth least-squares problem the fitter's solution has a sum of squares no larger than at the start, satisfies every stated bound, keeps fixed parameters at their starting values and tied parameters tied, and for a linear problem, bounded or not, reaches the constrained minimum with the analytic covariance and errors. "
 "Its reported sum of squares, evaluation count and degrees of freedom are those of the returned parameters, fixed parameters get zero covariance, stated maximum steps and the iteration limit are respected, and the user function is never evaluated outside the bounds. "
 "A stop requested by the user function is returned as the status, improper inputs (missing starting values included) give status 0 with a message, a function that stops being finite gives the best point so far with either convergence or a negative status and a message, and the caller's starting values and parameter descriptions are left unmodified.",
 ["inputs", "configurations"],
 "All linear and mildly non-linear problems with any mix of free, fixed, bounded and tied parameters and feasible starting points.",
 "The fitter has no tests of its own.",
 ["RMutils/mpfit.py"],
 [("Levenberg-Marquardt with bounds, fixed and tied parameters", "RMutils/mpfit.py: mpfit")],
 ["returned parameters, status, fnorm, covariance, errors"])

prop("R27", "Figures and printed reports show the run they belong to",
 "For every run of 1D synthesis, 1D cleaning, QU fitting and bandwidth-depolarised synthesis, the figures draw that run's own arrays: Stokes I with its errors and the model at its frequencies; fractional q and u with their errors, p and the angle against wavelength squared, and u against q; real, imaginary and absolute response and dispersion spectra on their own depth axes, with a lobe of the reported width and a line at the fitted peak (none when no peak was fitted); dirty, clean, residual and component spectra with the cutoff and window levels used; complexity residuals, chi-squared, likelihood and cumulative likelihood of q and of u each on its own axis with the reported median and interval; the fitted QU model at the reported parameters with the band of the posterior; the theoretical sensitivity. "
 "The printed report states the values the run returns, in the stated units. "
 "Figures are drawn only when asked for, and saved only when asked for, one file per figure under the run's prefix; drawing, saving and reporting never change the results or make a run fail.",
 ["inputs", "configurations"],
 "All spectra, flags, errors, models, precisions and option sets; figures shown, saved, both or neither; verbose or quiet.",
 "No test looks at a figure or at the printed report.",
 ["RMutils/util_plotTk.py", "RMtools_1D/do_RMsynth_1D.py", "RMtools_1D/do_RMclean_1D.py", "RMtools_1D/do_QUfit_1D_mnest.py", "RMtools_1D/rmtools_bwdepol.py"],
 [("spectra figure", "RMutils/util_plotTk.py: plot_Ipqu_spectra_fig, plot_I_vs_nu_ax, plot_PQU_vs_nu_ax, plot_psi_vs_lamsq_ax, plot_q_vs_u_ax, plot_pqu_vs_lamsq_ax"),
  ("depth figures", "RMutils/util_plotTk.py: plot_rmsf_fdf_fig, plot_RMSF_ax, plot_dirtyFDF_ax; RMtools_1D/do_RMclean_1D.py: plot_clean_spec; RMtools_1D/rmtools_bwdepol.py: plot_adjoint_info, bwdepol_plot_rmsf_fdf_fig"),
  ("complexity figure", "RMutils/util_plotTk.py: plot_complexity_fig"),
  ("report", "RMtools_1D/do_RMsynth_1D.py: run_rmsynth; RMtools_1D/do_RMclean_1D.py: run_rmclean")],
 ["figure objects as shown and saved, printed report, files written"])

prop("R28", "Input that cannot be right is refused and harms nothing",
 "A command-line tool given input that cannot be right ends with a message or an exception, writes no file, makes no directory, and changes or removes none that exists, earlier products and its own inputs included. This holds for missing input files; spectra that are empty, ragged, textual or have a number of columns the tool does not know; cubes of which Stokes U or I disagrees with Q on any axis, or that disagree with the frequency list, or with the noise list when it weights the data; cubes of several Stokes parameters; product sets for cleaning, peak fitting and rescaling of which a file is missing or belongs to another image, depth axis or channel list (response too short for the spectrum, width map of another size included); weight lists of another length in the RMSF report; chunk sets that are incomplete or have too many members; pixels, regions and channel limits outside the data or in reverse order; an output that exists without leave to overwrite it (assembly and extraction); unknown models, contradictory selections. "
 "The library functions for synthesis, response and cleaning return None with a message, or raise, for arrays that disagree in shape, and leave the caller's arrays unmodified. "
 "The same calls with consistent input succeed.",
 ["inputs", "configurations", "fault_sequences"],
 "All tools, each with every such fault, in every cube layout and with files of earlier runs present.",
 "The tests run good input only.",
 ["RMtools_1D/", "RMtools_3D/", "RMutils/util_RM.py"],
 [("3D synthesis", "RMtools_3D/do_RMsynth_3D.py: run_rmsynth, readFitsCube, main; RMutils/util_RM.py: do_rmsynth_planes, get_rmsf_planes"),
  ("cleaning", "RMutils/util_RM.py: do_rmclean_hogbom; RMtools_3D/do_RMclean_3D.py: main, run_rmclean; RMtools_1D/do_RMclean_1D.py: main"),
  ("chunks and regions", "RMtools_3D/assemble_chunks.py: main; RMtools_3D/extract_region.py: main"),
  ("maps", "RMtools_3D/do_fitIcube.py: get_frequencies, open_datacube; RMtools_3D/RMpeakfit_3D.py: main, read_files; RMtools_3D/rescale_I_model_3D.py: read_data, command_line"),
  ("1D tools", "RMtools_1D/do_RMsynth_1D.py: readFile, main; RMtools_1D/calculate_RMSF.py: main")],
 ["contents of the directory tree before and after", "how the run ended"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
