"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {})}})
S = "src/pydsm/"
D = S + "delsig/"
N = S + "NTFdesign/"
T = S + "cvxpy_tdr/"

prop("C01", "The quantizer returns the nearest admissible level, saturated",
 "For every real input and every number of levels n >= 1, the modulator's quantizer returns an odd integer if n is even and an even integer if n is odd, of magnitude at most n-1, and that level is the nearest admissible one (at distance at most 1 from the input while |input| <= n, an input exactly midway going to the higher level; the extreme level of the right sign beyond). With several quantizers each component obeys its own level count, and the stand-alone quantizer and those built into every simulation backend agree.",
 ["inputs", "configurations"], "all real inputs (including ties and values far outside the range), all level counts, any number of quantizers, every backend",
 "the tests quantize one sine through one binary modulator; level boundaries, saturation, odd level counts and several quantizers are never exercised",
 [D+"_simulateDSM_scipy.py", D+"_simulateDSM_helper.pxi", D+"_simulateDSM_cblas.pyx", D+"_simulateDSM_scipy_blas.pyx"],
 [("ds_quantize (Python)", D+"_simulateDSM_scipy.py"), ("ds_quantize / dbl_sat (C)", D+"_simulateDSM_helper.pxi")])

prop("C02", "State-space modulator simulation follows the modulator's difference equations",
 "Simulating a modulator given as an ABCD matrix, from any initial state and for any number of inputs, quantizers (at least one), states (at least one) and samples, returns the sequence defined by y = C x + D1 u, v = Q(y), x' = A x + B [u; v], sample after sample. The optional outputs are the state after each sample (or just the final state), the running maximum magnitude of each state including the initial one, and the quantizer input; asking for them changes no other output, and every backend returns the same values.",
 ["inputs", "configurations", "histories"], "all ABCD matrices, inputs, initial states, orders, input and quantizer counts, sequence lengths, store flags and backends",
 "the tests simulate a single second-order single-input modulator and compare a spectrum figure; recursion over arbitrary dimensions, flags and initial states is not reached",
 [D+"_simulateDSM.py", D+"_simulateDSM_scipy.py", D+"_simulateDSM_cblas.pyx", D+"_simulateDSM_scipy_blas.pyx", D+"_simulateDSM_helper.pxi"],
 [("simulation loop", D+"_simulateDSM_scipy.py"), ("cblas simulation loop", D+"_simulateDSM_cblas.pyx"), ("scipy_blas simulation loop", D+"_simulateDSM_scipy_blas.pyx"), ("track_vabsmax", D+"_simulateDSM_helper.pxi"), ("backend dispatch", D+"_simulateDSM.py")])

prop("C03", "Simulating an NTF shapes the quantization error by exactly that NTF",
 "When a modulator is specified by its noise transfer function (zeros, poles), the simulated output equals the input plus the quantization error (output minus quantizer input) filtered by that noise transfer function, i.e. the signal transfer function is one and the noise transfer function is the given one, starting from rest. This holds for every real, monic noise transfer function with as many zeros as poles (not identically one), every input sequence, every level count and every backend.",
 ["inputs", "configurations"], "all zero/pole sets closed under conjugation, all inputs, level counts and backends",
 "the tests look at the spectrum of one modulator driven by one sine; a realization that differs from the NTF only in unsampled configurations passes",
 [D+"_simulateDSM_scipy.py", D+"_simulateDSM_cblas.pyx", D+"_simulateDSM_scipy_blas.pyx"],
 [("realization of the loop filter from zpk", D+"_simulateDSM_scipy.py"), ("same", D+"_simulateDSM_cblas.pyx"), ("same", D+"_simulateDSM_scipy_blas.pyx")])

prop("C04", "The simulator rejects malformed specifications and leaves caller data alone",
 "A modulator specification, level list, input or initial state whose dimensions do not match is rejected with ValueError (an unknown backend name with RuntimeError) before any sample is simulated, so that no simulation ever reads or writes outside the arrays involved. The arrays, lists and tuples passed by the caller are never modified and no result shares memory with them.",
 ["inputs", "configurations"], "all shapes of the arguments, consistent or not, every backend and flag combination",
 "no test passes an inconsistent specification or checks that arguments survive a call; out-of-bounds pointer arithmetic in compiled code does not show in a passing test",
 [D+"_simulateDSM.py", D+"_simulateDSM_cblas.pyx", D+"_simulateDSM_scipy_blas.pyx", D+"_simulateDSM_scipy.py"],
 [("argument validation", D+"_simulateDSM_cblas.pyx"), ("argument validation", D+"_simulateDSM_scipy_blas.pyx"), ("backend dispatch", D+"_simulateDSM.py")])

prop("C05", "Transfer function evaluation equals the rational function it describes",
 "Evaluating a transfer function given as zeros/poles/gain or as numerator/denominator coefficients (highest power first) at any complex point or array of points returns the value of that rational function at each point, in the shape of the points, and a plain scalar for a single point. A polynomial given by its roots evaluates to gain times the product of (x - root) over the finite roots.",
 ["inputs"], "all zero, pole and coefficient lists (empty and infinite roots included), all gains, all evaluation points",
 "tests only evaluate transfer functions indirectly in a few NTF comparisons",
 [D+"_tf.py"], [("evalTF", D+"_tf.py"), ("evalRPoly", D+"_tf.py")])

prop("C06", "Complex pair sorting returns adjacent exact conjugate pairs, then sorted reals",
 "For any collection made of real numbers and (up to the relative tolerance) conjugate pairs, sorting into complex pairs returns the same values with every complex number directly followed by its exact conjugate (negative imaginary part first), pairs in order of non-decreasing real part, then the reals in increasing order. Collections that cannot be paired raise ValueError; the call always terminates, works along the requested axis of multidimensional arrays and does not modify its input.",
 ["inputs"], "all finite collections, any order of the elements, repeated values and real parts included, any axis and tolerance",
 "tests cover three doctest vectors; repeated real parts, unpairable and near-tolerance inputs are not sampled",
 [S+"relab.py"], [("cplxpair", S+"relab.py"), ("eps", S+"relab.py")])

prop("C07", "Decibel conversions are the stated logarithms and exact inverses of each other",
 "The voltage, power and dBm conversions return 20*log10|x|, 10*log10|x| and 10*log10(v^2/R)+30 elementwise for scalars, lists and arrays of any shape, and minus infinity exactly where the argument is zero; the generic conversion returns 10*log10(x) for power and 10*log10(|x|^2/R) for voltage. Each inverse conversion undoes its counterpart on positive values (and the counterpart undoes the inverse), with the same load resistance, and no conversion modifies its argument.",
 ["inputs"], "all real arguments, shapes, and positive resistances",
 "there are no tests of these conversions beyond incidental use",
 [D+"_decibel.py", S+"relab.py"], [("dbv dbp dbm undbv undbp undbm", D+"_decibel.py"), ("db", S+"relab.py")])

prop("C08", "Effective options are the published defaults overridden by the caller's",
 "Every function with tunable keyword options uses, for each option, the caller's value if given and its own currently published default otherwise, nested option groups being merged key by key; changing a function's published defaults affects that function accordingly. An unknown option raises TypeError, and no call ever modifies the published defaults or the dictionaries passed by the caller.",
 ["inputs", "configurations", "histories"], "all option dictionaries, all default tables, any sequence of calls",
 "tests pass a few fixed options and never look at the defaults before and after a call, nor change them",
 [S+"utilities.py", S+"ft.py", D+"_simulateDSM.py", D+"_synthesizeNTF.py", D+"_clans.py", N+"merit_factors.py", N+"helpers.py", N+"weighting/_fir_weighting.py", N+"minmax/_fir_minmax.py", N+"filter_based.py", N+"psychoacoustic.py"],
 [("digested_options", S+"utilities.py"), ("default_options attributes", "all listed files")])

prop("C09", "Array helpers pad, shift and split matrices without altering or losing data",
 "Padding a vector or matrix on the left, right, top or bottom to length n returns the original data in the original order plus exactly the missing entries, all equal to the fill value; splitting an ABCD matrix returns the four blocks for the given (or smallest consistent) number of inputs, which reassemble to the original; shifting dimensions by n rotates axes left for n > 0 (modulo the number of dimensions, leading singletons being dropped when only those are moved), prepends singleton axes for n < 0, removes leading singletons when n is not given, and a removal of singletons is undone by the opposite shift. Axis labels are the %g renderings of every step-th point with magnitudes under 1e-6 shown as 0, and no helper modifies its input.",
 ["inputs"], "all array shapes, contents, lengths, fill values, steps",
 "tests use a handful of small matrices",
 [D+"_padding.py", D+"_partitionABCD.py", S+"relab.py", D+"_axisLabels.py"],
 [("padl padr padt padb", D+"_padding.py"), ("partitionABCD", D+"_partitionABCD.py"), ("shiftdim", S+"relab.py"), ("axisLabels", D+"_axisLabels.py")])

prop("C10", "Noise gain and weighting functionals are the stated frequency integrals",
 "The quantization noise gain is twice the integral over the given band of |NTF|^2 times the weighting (the plain band average when requested), where a filter given as a weighting counts as its squared magnitude response and no weighting counts as one; the weighting coefficients used for FIR design are q0[k] = 2 * integral over [0,1/2] of w(f) cos(2 pi f k), k = 0..P. The product of several weightings or filters equals the pointwise product of their weighting functions, for scalar and array frequencies.",
 ["inputs", "configurations"], "all NTFs and weightings (callables or filters in either form), bands, averaging modes, orders and option settings",
 "tests compare a few Butterworth cases against each other with loose tolerances",
 [N+"merit_factors.py", N+"weighting/_fir_weighting.py", N+"legacy/_quantization_noise_gain.py", N+"legacy/_q0_from_ir.py"],
 [("quantization_noise_gain", N+"merit_factors.py"), ("mult_weightings, q0_weighting", N+"weighting/_fir_weighting.py")])

prop("C11", "Fourier and correlation helpers compute their defining sums and integrals",
 "The DTFT of a vector is sum x[n] exp(-2 pi i f (n - t0)/fs) (for a one-sided hermitian vector, x[0] + 2 sum x[n] cos(2 pi f n/fs)), the inverse DTFT is the corresponding integral over one period and inverts it, and the centred FFT returns, with its ordered frequency axis holding zero frequency at the centre, the DTFT samples at those frequencies. Raw correlations are q[k] = sum x[n] x[n-k] and q[k] = sum x[n] y[n-k], k = 0..N (N at most the length of x), over the overlapping samples.",
 ["inputs"], "all vectors (lists or arrays), lengths, lags, sample rates and frequencies",
 "tests compare one or two random vectors in a round trip",
 [S+"ft.py", S+"correlations.py"], [("dtft dtft_hermitian idtft idtft_hermitian fft_centered", S+"ft.py"), ("raw_acorr raw_xcorr", S+"correlations.py")])

prop("C12", "Schreier NTF synthesis returns a stable NTF of the requested order and peak gain",
 "For every order, oversampling ratio, zero option, peak gain and (for band-pass designs) centre frequency, the synthesized NTF has gain one and exactly `order` zeros and `order` poles, both closed under conjugation; the zeros are the requested ones or lie on the unit circle inside the signal band, the poles lie in the unit disc, and the gain at the frequency farthest from the band equals the requested peak gain unless an approximation warning says otherwise. A centre frequency above 1/2, an odd order for a band-pass design, or an explicit zero list of the wrong length raises ValueError.",
 ["inputs", "configurations"], "all orders up to 14 (any order for unoptimized or explicit zeros), all oversampling ratios, zero options, gains, centre frequencies, with and without the optimizer",
 "tests compare a dozen tabled designs",
 [D+"_synthesizeNTF.py", D+"_synthesizeNTF0.py", D+"_synthesizeNTF1.py", D+"_ds.py", S+"relab.py", N+"psychoacoustic.py"],
 [("synthesizeNTF", D+"_synthesizeNTF.py"), ("synthesizeNTF0", D+"_synthesizeNTF0.py"), ("synthesizeNTF1", D+"_synthesizeNTF1.py")])

prop("C13", "Optimized NTF zeros minimise in-band noise and band edges match the OSR",
 "For every supported order, the optimized zeros (normalized to the band edge) are (to the tabled accuracy of about 1e-5) the minimisers of the in-band noise of an NTF with constant denominator -- with all zeros free, or with a zero held at band centre when that is requested -- given as exactly `order` values in [-1, 1], symmetric about 0; without optimization they are all 0, and unsupported orders raise ValueError. The signal band is [0, 1/(2 osr)] for low-pass, f0 -+ 1/(4 osr) for band-pass and f0 -+ 1/(2 osr) for quadrature modulators, and the psychoacoustic zeros for order n are n values, symmetric, within the audio band.",
 ["inputs"], "every order and option, all oversampling ratios and centre frequencies",
 "the tests use orders 2 to 5 at most; a wrong digit in any other table row passes",
 [D+"_ds.py", N+"psychoacoustic.py"], [("ds_optzeros, ds_f1f2", D+"_ds.py"), ("dunn_optzeros", N+"psychoacoustic.py")])

prop("C14", "CLANS designs keep every pole within the allowed radius and meet the gain bound",
 "Whatever real parameter vector the CLANS optimizer tries, the NTF it stands for has exactly `order` poles, closed under conjugation and of magnitude at most the allowed maximum radius, gain one, and the given zeros; the objective is the NTF magnitude at the band edge and the constraint is non-negative exactly when the sum of absolute impulse response values does not exceed the quantizer's levels plus one. The returned design meets these constraints (up to the optimizer's tolerance) and its zeros are those of the corresponding Schreier design.",
 ["inputs", "configurations"], "all parameter vectors, orders, radii, level counts, oversampling ratios and zero options",
 "the tests run two designs and compare tabled results",
 [D+"_dsclansNTF.py", D+"_clans.py"], [("dsclansNTF", D+"_dsclansNTF.py"), ("clans, _dsclansObj6a, _dsclansObj6b", D+"_clans.py")])

prop("C15", "Audio weighting functions follow their analytic curves, normalized at 1 kHz",
 "The A, B, C, D and F weightings return, for scalars and arrays of frequencies, the published rational magnitude curves; the power form is the square of the amplitude form and the normalized form is 1 at 1 kHz. Each weighting's zero/pole form has the same magnitude response as the function (up to its normalization constant) and stable poles.",
 ["inputs"], "all positive frequencies, normalization and power/amplitude settings, all five curves",
 "there is no test of the weighting functions",
 [S+"audio_weightings.py"], [("a_weighting .. f_weighting, *_zpk, *_gain", S+"audio_weightings.py")])

prop("C16", "ISO 226 contours and loudness tables follow the standard and invert each other",
 "The sound pressure levels for a loudness level and the loudness levels for a sound pressure level are those of the ISO 226:2003 formulas at the standard's 29 frequencies, the contour at 1 kHz equals the loudness level, higher loudness always means higher pressure, and the two tables invert each other. The high-frequency extension appends one point at 20 kHz replicating the 20 Hz one and changes nothing else, loudness levels outside 0-90 are rejected with ValueError, interpolation passes through the table, and callers cannot corrupt the tabled data through returned arrays.",
 ["inputs", "histories"], "all loudness and pressure levels, extension on or off, any interpolation order, any sequence of calls",
 "there is no test of the ISO 226 module",
 [S+"iso226.py"], [("tabled_*, iso226_spl_contour, iso226_spl_itpl", S+"iso226.py")])

prop("C17", "FIR NTF design by semidefinite programming is monic, bounded and well-posed",
 "For every order, weighting (or band specification), peak gain and modelling backend, the designed NTF has gain one, exactly `order` zeros, the preassigned poles padded with zeros at the origin (none: all at the origin), and, whenever the solver reports success, peak gain not exceeding the requested one (to solver tolerance), and it is the best such NTF: the optimization problem handed to the solver has the weighted noise power (or the peak in-band gain) as objective and the bounded-real matrix inequality for the peak gain as constraint, identically in every backend. Zeros requested at band centre are present, several bands are each handled with their own parameters, and too many poles, inconsistent band lists or unknown backends raise ValueError.",
 ["inputs", "configurations"], "all orders, weightings, gains, poles, bands and backends",
 "tests run a few designs and compare merit factors loosely between backends",
 [N+"weighting/_fir_weighting.py", N+"weighting/_fir_weighting_cvxpy.py", N+"weighting/_fir_weighting_cvxpy_tdr.py", N+"weighting/_fir_weighting_picos.py", N+"minmax/_fir_minmax.py", N+"minmax/_fir_minmax_cvxpy.py", N+"minmax/_fir_minmax_cvxpy_tdr.py", N+"minmax/_fir_minmax_picos.py"],
 [("ntf_fir_from_q0, ntf_hybrid_weighting", N+"weighting/_fir_weighting.py"), ("ntf_fir_from_digested", "the six modeler files"), ("ntf_fir_minmax", N+"minmax/_fir_minmax.py")])

prop("C18", "Bundled convex modelling expressions evaluate to the mathematics they denote",
 "For all expressions built from constants, variables, parameters and arrays with sums, differences, products, negation, transposition, indexing, stacking, reshaping, diagonals, trace and sums, the value of the expression is the corresponding matrix-algebra value of its operands' values, and its lists of variables and parameters are exactly those occurring in it. Incompatible dimensions are rejected and operands are never altered.",
 ["programs", "inputs"], "all expression trees, shapes and values of variables and parameters",
 "the modelling library is only exercised through a few complete designs",
 [T+"scalars.py", T+"arrays.py", T+"utils.py", T+"interface.py"],
 [("scalar operator overloads", T+"scalars.py"), ("array operator overloads", T+"arrays.py"), ("structure functions", T+"utils.py")])

prop("C19", "Expressions the modelling library certifies convex or concave really are",
 "Whenever the bundled modelling library declares an expression affine, convex or concave, or a constraint or program to satisfy the disciplined convex programming rules, the declaration is mathematically true: an affine expression is affine in its variables, a convex (concave) one satisfies Jensen's inequality between any two points of its domain, and an accepted constraint describes a convex set. Constants and parameters never make a non-convex expression pass.",
 ["programs", "inputs"], "all expression trees over the function library, all pairs of points",
 "only a few valid programs are ever built; unsound verdicts are never provoked",
 [T+"scalars.py", T+"constraints.py", T+"programs.py", T+"functions/"],
 [("is_convex, is_concave, is_affine", T+"scalars.py"), ("is_dcp", T+"constraints.py"), ("is_dcp", T+"programs.py")])

prop("C20", "The modelling library solves the program that was written",
 "Each function in the modelling library evaluates to its mathematical definition, and the graph (conic) form it is expanded into is exact: minimising over the auxiliary variables gives back the function's value. Solving a program returns variable values that satisfy every constraint and attain the optimal objective of the program as written (up to solver tolerance), reports infeasibility and unboundedness as such, and rejects programs that do not follow the convexity rules.",
 ["programs", "inputs", "configurations"], "all programs over the function library, all data",
 "the tests solve complete designs with a fixed shape of program (one norm, a few matrix inequalities)",
 [T+"procedures/", T+"sets/", T+"functions/", T+"programs.py"],
 [("expand, call_solver, re_eval, solve_prog", T+"procedures/"), ("set oracles", T+"sets/"), ("functions", T+"functions/")])

prop("C21", "Impulse responses are those of the filter, truncated where they have decayed",
 "The impulse response of a filter given as zeros/poles/gain (as many zeros as poles) or as numerator/denominator coefficients in powers of 1/z is, for every requested length, exactly the beginning of the power series of its transfer function in 1/z, and responses of different lengths agree on the common part. Without a requested length, the length is the number of zeros plus one plus the smallest integer number of samples after which the slowest pole has decayed by the requested number of decibels.",
 ["inputs"], "all stable filters in either form, all lengths and attenuations",
 "one test compares one filter",
 [S+"ir.py"], [("impulse_response, guess_ir_length", S+"ir.py")])

prop("C22", "Basic numeric helpers meet their definitions elementwise for any input",
 "Chopping sets to zero exactly the entries (real and imaginary parts separately) below the tolerance and keeps all others, the negligibility test is |x| < tolerance, machine spacing is the relative precision of the number type times |x|, the chained dot product is the left-to-right product, the rms value is the root of the mean square (after removing the mean when asked) and the rms gain is the root of the mean squared magnitude response over N equally spaced frequencies including both ends. None modifies its input.",
 ["inputs"], "all scalars and arrays, tolerances, bands and point counts",
 "tests do not cover these helpers except for one doctest",
 [S+"utilities.py", S+"relab.py", D+"_rms.py", D+"_rmsGain.py"],
 [("chop, is_negligible, mdot", S+"utilities.py"), ("eps", S+"relab.py"), ("rms", D+"_rms.py"), ("rmsGain", D+"_rmsGain.py")])

prop("C23", "Deprecated and alias entry points behave exactly like their replacements",
 "Every deprecated or re-exported entry point returns exactly what its replacement returns for the same arguments, with every argument and option forwarded unchanged and the same defaults, and every deprecated one issues the deprecation warning. Filter-based variants first convert the output filter (magnitude response squared, impulse response as an FIR filter) and reject other filter kinds with ValueError.",
 ["inputs", "configurations"], "all arguments and options of every alias",
 "a couple of legacy calls are compared in tests; forwarding of each argument is not",
 [S+"simulation.py", S+"utilities.py", N+"delsig.py", N+"filter_based.py", N+"legacy/", N+"weighting/_fir_weighting.py", N+"minmax/_fir_minmax.py", N+"psychoacoustic.py"],
 [("deprecated wrappers", "the listed files")])

prop("C24", "Psychoacoustic designs use the chosen audio weighting, band-limited and clipped",
 "The audio-aware FIR design uses as noise weighting at normalized frequency f the selected weighting (by letter or callable) at 2 f osr times the audio bandwidth for frequencies within the audio band and zero outside, never below the maximum-attenuation floor 10^(-attenuation/10), and passes order, gain, normalization and options on unchanged. The Dunn design places its zeros at exp(i pi z / osr) for the tabled normalized zeros z.",
 ["inputs", "configurations"], "all weightings, bandwidths, oversampling ratios, attenuations and design settings",
 "no test exercises the psychoacoustic designs",
 [N+"psychoacoustic.py"], [("ntf_fir_audio_weighting, ntf_dunn, dunn_optzeros_cplx", N+"psychoacoustic.py")])

prop("C25", "Chebyshev NTF design meets its peak gain with zeros inside the signal band",
 "The Chebyshev NTF for a given order, oversampling ratio, peak gain and centre frequency has gain one, exactly `order` zeros and poles closed under conjugation, zeros on the unit circle inside the signal band [0, 1/(2 osr)] (low-pass) or f0 -+ 1/(4 osr) (band-pass, f0 > 1/(4 osr)), poles strictly inside the unit circle, and, when the requested gain is attainable by a Chebyshev filter of that order and band with at most 300 dB of attenuation, a peak gain equal to the requested one. An odd order for a band-pass design raises ValueError.",
 ["inputs", "configurations"], "all orders, oversampling ratios, attainable peak gains and centre frequencies",
 "one low-pass design is tested",
 [D+"_synthesizeChebyshevNTF.py", D+"_ds.py"], [("synthesizeChebyshevNTF", D+"_synthesizeChebyshevNTF.py")])

prop("C26", "Maximally flat and cost-optimal FIR zero sets lie where they must",
 "The maximally flat zero set of a given order and steepness consists of `order` roots within the closed unit disc at which the magnitude response 1 + alpha times a pure power of the frequency-warped variable vanishes (up to reflection in the unit circle); the cost-optimal spread returns `order` zeros on the unit circle within the signal band, closed under conjugation with a zero at 1 for odd orders, no more expensive than its starting point, and the cost is always evaluated on the zero set being tried.",
 ["inputs", "configurations"], "all orders, steepness values, oversampling ratios and cost functions",
 "one test compares one spread",
 [N+"helpers.py"], [("maxflat_fir_zeros, spread_fir_uc_zeros", N+"helpers.py")])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
