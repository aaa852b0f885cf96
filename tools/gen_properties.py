"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

F = "PyDynamic/uncertainty/propagate_filter.py"
CV = "PyDynamic/uncertainty/propagate_convolution.py"
D = "PyDynamic/uncertainty/propagate_DFT.py"
MCF = "PyDynamic/uncertainty/propagate_MonteCarlo.py"
IP = "PyDynamic/uncertainty/interpolate.py"
FF = "PyDynamic/model_estimation/fit_filter.py"
FT = "PyDynamic/model_estimation/fit_transfer.py"
SOS = "PyDynamic/misc/SecondOrderSystem.py"
FS = "PyDynamic/misc/filterstuff.py"
IM = "PyDynamic/misc/impinvar.py"
NO = "PyDynamic/misc/noise.py"
TS = "PyDynamic/misc/testsignals.py"
TO = "PyDynamic/misc/tools.py"
SG = "PyDynamic/signals.py"

prop("C01", "FIR filtering returns the filtered signal and its exact GUM covariance",
 "For every input signal, every FIR filter (also of a single coefficient) and every documented description of the uncertainties (float, point-wise vector, one-sided autocovariance, full matrix for the input; none, vector or full matrix for the filter; an optional certain FIR low-pass stage), the FIR filtering call returns the convolution of the signal with the filter, started from the stationary past of the first sample. The returned uncertainty is theta^T Ux theta + x^T Utheta x + tr(Ux Utheta) for every pair of output times, either as the full covariance matrix or as the square roots of its diagonal. A requested delay of s samples moves values and uncertainty together by s samples.",
 ["inputs", "configurations"], "all signals (any length, real or integer valued), filters of 1..n taps, all uncertainty kinds, low-pass on/off, all integer shifts, both output forms",
 "The tests enumerate a few fixed filters and mostly assert shapes or compare two code paths with each other on one signal; a wrong lag, wrong boundary or wrong transpose for a non-symmetric configuration passes.",
 [F], [("FIRuncFilter", F), ("_fir_filter / _fir_filter_diag", F), ("_stationary_prepend_covariance", F)],
 ["return value of FIRuncFilter"])

prop("C02", "Equivalent FIR problem descriptions give equal, causal, scaling results",
 "Describing the same uncertainty in different documented forms (a float, a constant point-wise vector, a one-element autocovariance, a diagonal matrix; standard uncertainties or a diagonal matrix for the filter) gives the same values and uncertainties from FIR filtering, and the point-wise output always equals the root of the diagonal of the full output. Output up to time k depends only on input up to time k, constant signals are multiplied by the sum of the coefficients, and multiplying the signal and its uncertainty by c multiplies result and uncertainty by |c|. The low-pass stage is equivalent to filtering twice in sequence.",
 ["inputs", "configurations"], "all pairs of equivalent descriptions, all signals, filters, cut points and scale factors",
 "Metamorphic relations over pairs of calls are not expressed by the tests, which use single calls with fixed data.",
 [F], [("FIRuncFilter fast path selection", F), ("_fir_filter", F), ("trimOrPad", TO)], ["return value of FIRuncFilter"])

prop("C03", "Uncertain convolution matches the reference convolution in every mode",
 "In each of the six documented modes, for every pair of signals and for each combination of certain/uncertain operands, the convolution result equals the corresponding NumPy or SciPy convolution of the values. The covariance equals the one obtained by propagating both input covariance matrices through the bilinear convolution (including the second-order product term), with the boundary handled as the mode prescribes for the values. For the NumPy modes swapping the two operands does not change the result.",
 ["inputs", "configurations"], "signals of any two lengths (shorter, equal, longer second operand; even and odd), all modes, U1/U2 present or absent, arbitrary PSD covariances",
 "Tests draw few sizes and compare covariance to a Monte Carlo run with loose tolerance on one case.",
 [CV, F], [("convolve_unc", CV), ("_fir_filter", F)], ["return value of convolve_unc"])

prop("C04", "DFT uncertainty propagation is the exact linear propagation",
 "For every real signal of even or odd length the DFT with uncertainty returns real part followed by imaginary part of the half spectrum of the (zero-padded, windowed) signal. The returned covariance is J Ux J^T with J the matrix of that linear map, for Ux given as noise power, as vector of squared uncertainties or as full covariance matrix (for a noise power without window only the diagonal is returned), and with the optional mask only the selected frequencies are kept, consistently in values and covariance. Requested sensitivity matrices are that J.",
 ["inputs", "configurations"], "all signals, N >= len(x), windows, masks, three uncertainty forms, all memory/return options",
 "Tests use single sizes with random data and check the round trip or an MC comparison; option combinations (window with vector uncertainty, mask with padding, odd length) are not reached.",
 [D], [("GUM_DFT", D), ("_apply_window", D), ("_matprod", D)], ["return value of GUM_DFT"])

prop("C05", "Inverse DFT propagation is exact and undoes the DFT",
 "For every half spectrum of an even-length signal and every covariance of its real and imaginary parts, the inverse DFT returns the inverse real FFT and the covariance J F J^T of that linear map; the covariance is symmetric. Applying it to the result of the forward propagation returns the original signal and its original covariance.",
 ["inputs"], "all even signal lengths, arbitrary (also correlated and non-diagonal) covariances, output lengths supported by the inverse FFT",
 "The tests' round trips start from white or Hann-like covariances for few lengths and use low relative precision.",
 [D], [("GUM_iDFT", D)], ["return value of GUM_iDFT"])

prop("C06", "Amplitude/phase conversions propagate by the true Jacobian and round-trip",
 "Converting real/imaginary parts to amplitude and phase (and back) gives A = |F|, P = arg F (and R = A cos P, I = A sin P) with covariance J U J^T for the Jacobian of that map at the given point, for full matrices, for vectors of variances, and for sparse diagonal representations. Converting forth and back restores the values and, to first order, the covariance. Point-wise results are permuted when the frequencies are permuted: no line influences another beyond the given covariance.",
 ["inputs", "configurations"], "all spectra with non-zero amplitude in all four quadrants, all covariances, matrix/vector/sparse representations",
 "Existing tests use small random spectra and compare only the round trip with relaxed tolerance, so errors cancelling between the two directions remain invisible.",
 [D], [("DFT2AmpPhase", D), ("AmpPhase2DFT", D)], ["return values"])

prop("C07", "Time domain <-> amplitude/phase agrees with the two-step propagation",
 "Going from the time domain directly to amplitude and phase equals the DFT propagation followed by the polar conversion in values and in covariance, and going back equals polar-to-Cartesian followed by the inverse DFT. The multi-signal form returns for every signal exactly what the single-signal form returns, at the selected frequencies.",
 ["inputs", "configurations"], "all even-length signals without vanishing spectral lines, vector/matrix/float uncertainties, masks, numbers of signals",
 "The composed functions use separate formulas; the tests exercise them once and never against the composition with correlated input.",
 [D], [("Time2AmpPhase", D), ("AmpPhase2Time", D), ("Time2AmpPhase_multi", D)], ["return values"])

prop("C08", "Frequency domain division and multiplication propagate exactly to first order",
 "Deconvolution in the frequency domain returns Y/H and the covariance J diag(UY, UH) J^T with the true Jacobian of complex division; the transfer-function estimate returns Y/X likewise, and multiplication returns Y*F with the first-order covariance of the product. Dividing the product by one factor restores the other factor. All covariance input forms (matrix, vector of variances, real/imaginary block order) are treated the same way.",
 ["inputs", "configurations"], "all spectra with non-zero divisor, all covariances, vector and matrix forms",
 "The tests only check that one deconvolution example runs and one multiplication round trip; a wrong sensitivity entry in one block is invisible.",
 [D], [("DFT_deconv", D), ("DFT_transferfunction", D), ("DFT_multiply", D)], ["return values"])

prop("C09", "Every reported covariance is symmetric, positive semi-definite and scales",
 "Whenever the covariance inputs are valid (symmetric positive semi-definite), every covariance matrix returned by a propagation, conversion or fitting function is finite, symmetric and positive semi-definite up to rounding, and every reported standard uncertainty is real and non-negative; for FIR filtering this refers to input covariances which stay valid when continued as stationary into the past. Multiplying the input quantity and its standard uncertainty by c multiplies the linear results by c and their covariance by c^2, and adding further input covariance never makes an output variance smaller.",
 ["inputs", "programs"], "all propagation functions and chains of them, singular, nearly singular and widely scaled PSD inputs",
 "Tests look at single functions and never at algebraic validity of the covariance along a chain of calls with singular or badly scaled inputs.",
 [F, CV, D, IP, FF, FT], [("covariance assembly in each propagate/fit function", "PyDynamic/uncertainty, PyDynamic/model_estimation")], ["covariance outputs"])

prop("C10", "Interpolation propagates uncertainty via the interpolant's sensitivities",
 "For each supported interpolation kind the interpolated values equal those of the reference interpolator at every query point, irrespective of the order in which the nodes or the queries are supplied. For the propagating kinds the reported uncertainty is sqrt(sum_i c_i^2 u_i^2) with c_i the derivative of the interpolated value with respect to node value i, and the returned sensitivities, when asked for, are these derivatives. At a node the value and uncertainty are the ones supplied for that node.",
 ["inputs", "configurations"], "all strictly distinct node sets (equidistant or not, shuffled), all query sets inside the range, all kinds, copy/assume_sorted/returnC options",
 "The repository has property tests of this function, but they check bounds and counts, not the value of the uncertainty nor independence of the order of nodes and queries.",
 [IP], [("interp1d_unc", IP)], ["return values of interp1d_unc"])

prop("C11", "Out-of-range interpolation follows the requested policy exactly",
 "Queries outside the node range raise an error by default, and otherwise get exactly what was requested: the fill value (one or a pair), the boundary node, or extrapolation, with the corresponding fill, boundary or extrapolated uncertainty. In-range queries are not influenced by the policy, and sensitivities of constant-filled queries with propagation from the boundary node are the unit weight on that node.",
 ["inputs", "configurations"], "all combinations of bounds_error, fill_value and fill_unc, kinds, queries left/right/inside, sorted or shuffled nodes",
 "There are many policy combinations times kinds; the tests visit a handful of them and check them with weak inequalities.",
 [IP], [("interp1d_unc fill handling", IP)], ["return values and exceptions of interp1d_unc"])

prop("C12", "Equidistant resampling spans the data and is plain interpolation",
 "Resampling to an equidistant axis returns a strictly equidistant axis with the requested step that starts at the first input time and covers the input range without leaving it, and values and uncertainties equal to interpolation at those times. Resampling data that are already equidistant with the same step reproduces them.",
 ["inputs", "configurations"], "all sorted time stamps, all positive steps smaller and larger than the range, all kinds",
 "Rounding of the end point depends on step and range values; the tests sample few and only look at differences between neighbours.",
 [IP, TO], [("make_equidistant", IP)], ["return value of make_equidistant"])

prop("C13", "IIR filtering returns the filtered signal and its first-order uncertainty",
 "For every stable IIR filter, every input signal and noise level the IIR propagation returns the causal filter output with zero initial state and the point-wise standard uncertainties sqrt(noise contribution + J Uab J^T), where J is the derivative of the output with respect to (a1..ap, b0..bp). With a certain filter the uncertainty is that of the FIR expansion of the impulse response, with zero noise it is purely the coefficient contribution.",
 ["inputs"], "all stable coefficient sets with numerator not longer than the denominator, all signals, float or vector noise, all PSD coefficient covariances",
 "There is no test of this function's numeric result at all.",
 [F], [("IIRuncFilter", F)], ["return value of IIRuncFilter"])

prop("C14", "Monte Carlo filtering draws from the stated input distribution",
 "The Monte Carlo filter simulation returns the mean, covariance or samples of filter outputs for input signals drawn with the stated noise (float, point-wise vector or covariance matrix, also singular) and coefficients drawn with the stated covariance: with zero uncertainties the result is exactly the deterministic filter output (including the optional low-pass and shift), and for nonzero uncertainties it approaches the analytic propagation. Equal random seeds give equal results and different runs are drawn independently.",
 ["inputs", "configurations"], "all filters, noise descriptions, run counts, shifts and low-pass filters",
 "Tests only assert shapes and compare with one MC result under generous tolerances.",
 [MCF], [("MC", MCF), ("Normal_ZeroCorr", MCF)], ["return values of MC and Normal_ZeroCorr"])

prop("C15", "Sequential Monte Carlo estimates the point-wise filter uncertainty",
 "Sequential Monte Carlo returns, for every signal, noise model (white, moving average or autoregressive) and uncertain filter, the filtered signal and point-wise standard uncertainties without storing all samples. With zero uncertainties the value equals the deterministic filter output and the uncertainty is zero at each sample; with noise the uncertainty approaches that of the analytic propagation, and requested coverage quantiles are the sample quantiles at each time in the requested order.",
 ["inputs", "configurations"], "all filters (FIR, IIR), noise models, initial values, shifts and low-pass filters",
 "The function has no test that checks a numeric result.",
 [MCF], [("SMC", MCF)], ["return value of SMC"])

prop("C16", "Batch-wise Monte Carlo statistics equal the statistics of all samples",
 "The update Monte Carlo engine reports for any model and any run count, block size and number of workers exactly the mean, covariance and histogram of the samples it evaluated: exactly the requested number of runs, each input drawn evaluated once and paired with its own output when samples are returned. Block size and worker count affect only speed and memory, never the statistics of the same draws.",
 ["inputs", "configurations", "schedules"], "all run counts and block sizes (divisible or not, larger than the run count), 1..n workers, scalar and vector models with any output shape, combinations of flags",
 "Tests use divisible block sizes and check shapes; the weighted update over unequal blocks and the worker schedule are never compared with the direct statistics.",
 [MCF], [("UMC_generic", MCF)], ["return values of UMC_generic"])

prop("C17", "Update Monte Carlo for filters matches the stated model",
 "The update Monte Carlo for filters returns mean, coverage bounds and histograms consistent with the samples of filter outputs for the given input noise and coefficient covariance: with zero uncertainties it returns the deterministic output with coinciding bounds, every requested histogram resolution is reported, and every histogram counts every run exactly once. Lower bounds never exceed upper bounds, and a larger coverage probability never gives a narrower interval for the same draws.",
 ["inputs", "configurations"], "all filters, noise levels, block sizes, resolutions, shifts and low-pass filters",
 "The tests check output lengths only.",
 [MCF], [("UMC", MCF), ("_UMCevaluate / bins update", MCF)], ["return value of UMC"])

prop("C18", "FIR least-squares fits are the optimal weighted real-coefficient fits",
 "The FIR fits return the real coefficients minimising the weighted squared distance between the filter's response and the target response (the measured response, or for the inverse its reciprocal, each combined with the requested delay) at the given frequencies. A response that was generated by an FIR filter of that order is recovered exactly, weights given as vector or as diagonal matrix mean the same, and weight zero removes a frequency.",
 ["inputs", "configurations"], "all frequency grids, orders, delays, sampling rates, responses and weights",
 "The tests fit one second-order system once and assert that the calls run.",
 [FF], [("LSFIR, invLSFIR, invLSFIR_unc", FF)], ["return values"])

prop("C19", "Uncertain inverse FIR fits agree with the plain fit and propagate linearly",
 "The uncertain inverse FIR fits return for vanishing uncertainty the coefficients of the plain inverse fit, and their coefficient covariance is that of the linear least-squares map applied to the covariance of the reciprocal response. The direct Monte Carlo form and the covariance-based form agree within statistical error for small uncertainties, and both are reproducible from the random seed.",
 ["inputs", "configurations"], "all responses bounded away from zero, small covariances of real and imaginary parts, orders, delays, weights",
 "The repository only runs one example; nothing checks the covariance against an independent propagation.",
 [FF], [("invLSFIR_unc", FF), ("invLSFIR_uncMC", FF)], ["return values"])

prop("C20", "IIR fits are optimal for their delay and end up stable or say they are not",
 "The IIR fits return coefficients with leading denominator coefficient one which, when no stabilisation was necessary, minimise the equation error for the target response with the delay they report, and which recover a response generated by a filter of the same orders. The result is a stable filter within the allowed iterations or the user is warned, and the uncertain inverse form returns a coefficient covariance for the coefficients it returns.",
 ["inputs", "configurations"], "all stable generating filters and general responses, orders, delays, iteration limits",
 "Tests fit two fixed systems and compare against stored numbers or nothing.",
 [FF], [("LSIIR, invLSIIR, invLSIIR_unc", FF), ("mapinside", FS)], ["return values"])

prop("C21", "Second-order system fit recovers parameters with propagated covariance",
 "Fitting a second-order system to its own exact frequency response returns the parameters (static gain, damping, resonance frequency) which generated it, for every positive gain, every choice of weighting and every frequency grid. The returned covariance is symmetric and equals, for small response uncertainties, the covariance of the fitted parameters under perturbation of the response; the Monte Carlo and the linear variants agree.",
 ["inputs", "configurations"], "all physically meaningful parameters, frequency grids from below to above resonance, response covariances, weights",
 "The tests recover one fixed parameter set.",
 [FT], [("fit_som", FT)], ["return value of fit_som"])

prop("C22", "Second-order system descriptions are mutually consistent",
 "Transfer function, frequency response, Monte Carlo phase/amplitude and real/imaginary forms of a second-order system with gain, damping and resonance frequency describe the same system S0*w0^2/(w0^2+2j d w0 w - w^2), for every parameter set and frequency. The uncertainty of the continuous coefficients and of the real/imaginary and amplitude/phase responses approaches the linear propagation of the parameter uncertainties, and vanishes with them.",
 ["inputs"], "all parameter sets (scalar and vector), frequency vectors, parameter uncertainties",
 "Tests verify a few shapes and single values.",
 [SOS], [("sos_FreqResp, sos_phys2filter, sos_realimag, sos_absphase", SOS)], ["return values"])

prop("C23", "Filter utilities compute what they are named for",
 "The stability predicate is true exactly when all poles lie in the stability region for digital and for analog filters (poles on its border aside); mapping inside keeps roots in the unit disc, reflects the others to conjugate reciprocals and preserves the magnitude response up to a constant factor. The group delay is the negative phase derivative, the Kaiser low-pass is a symmetric unit-gain filter with an integer delay equal to its group delay, Savitzky-Golay smoothing reproduces polynomials up to its order and their derivatives away from the ends, and decibel and unwrapped-angle helpers follow their definitions.",
 ["inputs", "configurations"], "all polynomials by roots (real, complex pairs, repeated), window lengths, orders, derivatives, sampling rates",
 "The tests only cover a digital stability example.",
 [FS], [("isstable, mapinside, grpdelay, kaiser_lowpass, savitzky_golay, db, ua", FS)], ["return values"])

prop("C24", "Impulse invariant discretisation samples the impulse response",
 "Discretising a continuous-time transfer function by impulse invariance gives a digital filter whose impulse response equals the sampled, step-scaled impulse response of the continuous system, with normalised real coefficients, and stable for stable systems. Poles may be real, complex and double, as long as the absolute pole tolerances of the partial fraction expansion resolve them.",
 ["inputs"], "all strictly proper transfer functions given by residues and poles of multiplicity one and two, all sampling rates",
 "There is no test of this function.",
 [IM], [("impinvar", IM)], ["return value of impinvar"])

prop("C25", "Generated noise has the requested statistics",
 "White noise has zero mean and the requested standard deviation, ARMA noise is the recursive filter with the given coefficients driven by white noise of the given level, and power-law noise has exactly the requested mean and standard deviation and the power spectrum of its colour over the frequency index counted from one. A theoretical autocovariance returned for a colour is a valid autocovariance, and the correlated-noise helper returns the covariance of the noise it generates; equal random seeds give equal sequences.",
 ["inputs", "configurations"], "all lengths, standard deviations, AR/MA orders and coefficients, colours",
 "Tests look at shapes and exception types; dynamics beyond lag one are never compared.",
 [NO, TS], [("white_gaussian, power_law_noise, power_law_acf, ARMA", NO), ("corr_noise", TS)], ["return values"])

prop("C26", "Test signals have the documented shape",
 "Each test signal generator returns one value per time sample that equals its closed formula (Gaussian pulse, rectangle open at its start and closed at its end, square pulses, sine with the given period, multi-sine of angular frequencies, shock-like pulse) plus white noise with the requested standard deviation. Peak height, position and width follow the parameters, and with zero noise the result is deterministic.",
 ["inputs"], "all time axes and parameters, noise levels including zero",
 "There are no tests of values for most generators.",
 [TS], [("shocklikeGaussian, GaussianPulse, rect, squarepulse, sine, multi_sine, corr_noise", TS)], ["return values"])

prop("C27", "Vector and matrix helpers keep values and uncertainty together",
 "Shifting moves values and uncertainties by the same number of samples for float, vector and matrix uncertainty and is undone by the opposite shift; trimming or padding keeps the leading elements and the requested length; the repair of nearly semi-definite matrices terminates, returns a symmetric positive semi-definite matrix within its iteration limit and leaves good matrices essentially unchanged. The Monte Carlo conversion from amplitude and phase returns per-frequency real and imaginary parts with their covariance, and the printing helpers reproduce the numbers to the requested precision.",
 ["inputs", "configurations"], "all sizes, shifts, lengths, symmetric matrices (dense and sparse), precisions",
 "None of these except one is covered by tests beyond a call.",
 [TO], [("shift_uncertainty, trimOrPad, make_semiposdef, FreqResp2RealImag, print_vec, print_mat", TO)], ["return values"])

prop("C28", "A signal object stays consistent through any history of operations",
 "After any sequence of constructions, filter applications and plots, a signal object's values, standard uncertainties, time axis and sampling parameters are mutually consistent in length and scale, and its values and uncertainties equal those obtained by propagating the original data through the same sequence of filters by the underlying functions. The given description of uncertainty (float, vector, matrix) is interpreted equally at construction and on filtering, for FIR and IIR filters, analytically or by Monte Carlo.",
 ["histories", "inputs", "configurations"], "all sequences of filter applications (FIR/IIR, certain/uncertain, MC or analytic) on signals of at least two equidistant samples built with every combination of constructor arguments",
 "Tests apply at most one filter to one signal and assert only that it runs.",
 [SG], [("Signal", SG), ("Signal.apply_filter", SG)], ["values, uncertainty, time, Ts, Fs of a Signal"])

prop("C29", "Calls are pure: inputs are untouched and results do not depend on history",
 "No public function modifies the arrays or containers passed to it, and the result of a deterministic function depends only on its arguments: repeating a call, in any history of other calls, gives an identical result. Deterministic functions do not consume or reset the global random state, and randomised functions give identical results from identical seeds. Equal numbers handed over in another storage type (integer widths, zero-dimensional arrays, NumPy scalars, memory order, strides) or container (lists and tuples in place of arrays) are answered equally or rejected by an error, never silently ignored.",
 ["histories", "inputs"], "all public functions in any order with shared argument arrays",
 "Tests create fresh arguments per call and never check them afterwards.",
 [F, CV, D, MCF, IP, FF, FT, SOS, FS, IM, NO, TS, TO], [("every public function", "PyDynamic")], ["argument arrays, return values, numpy.random state"])

prop("C30", "Every public and deprecated import path leads to the same behaviour",
 "Everything promised at package level, in the documentation and in the read-me can be imported from the promised place, and deprecated modules and functions return exactly what their successors return for equal arguments while announcing their deprecation. Wrappers pass on every argument, including optional ones and keyword forms.",
 ["inputs", "configurations"], "all documented names and alias pairs, all argument combinations of the aliases",
 "Tests call few aliases with default arguments.",
 ["PyDynamic/__init__.py", "PyDynamic/uncertainty/__init__.py", "PyDynamic/deconvolution/fit_filter.py", "PyDynamic/identification/fit_filter.py", "PyDynamic/identification/fit_transfer.py", "PyDynamic/uncertainty/interpolation.py", TO],
 [("package exports", "PyDynamic/__init__.py"), ("deprecated wrappers", "PyDynamic/deconvolution, PyDynamic/identification, PyDynamic/misc/tools.py")], ["import results, return values, warnings"])

prop("C31", "Inconsistent input is rejected by an error, not answered by wrong numbers",
 "Input that the documentation declares invalid (mismatching lengths of values and uncertainty, unknown modes or kinds, too short transform lengths, non-square matrices, unsupported interpolation kinds or filter types, wrong window sizes) raises an exception. Valid neighbours of such input are accepted, so rejection happens exactly at the documented limits.",
 ["inputs", "configurations"], "all public functions with a documented or coded input contract, all sizes of mismatch",
 "Tests check a few single wrong calls, not the boundary between valid and invalid.",
 [F, CV, D, MCF, IP, FS, TO, SG], [("validation statements and raises in the public functions", "PyDynamic")], ["exceptions raised"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
