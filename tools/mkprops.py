#!/usr/bin/env python3
"""Writes properties.jsonl (single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s, "meaning": s, "where": files[0]} for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "Deque behaves as a bounded double-ended sequence",
  "For every capacity and every legal sequence of pushes, pops and clears at either end, front(), back(), size(), empty(), full() and max_size() report exactly what an ideal sequence of the same operations would report. No access leaves the fixed storage, and the internal assertion never fires for legal use while pushing into a full or popping/peeking an empty queue is always caught by it.",
  ["histories", "configurations"], "all operation histories, all capacities >= 1, all element types",
  "Wrap-around bugs only appear for particular interleavings at particular fill levels and capacities; a test visits finitely many of them.",
  ["deque.hh"], [("push/pop at either end", "deque.hh class Deque")], ["ring buffer, two end positions and a fill count"], ["return values of front, back, size, empty, full, max_size"])
p("P02", "Stack is last-in first-out and bounded",
  "For every capacity and every legal sequence of push, pop and clear, top() is the most recently pushed element not yet popped, first() is the oldest such element, and size(), empty(), full() and max_size() agree with the ideal stack. Storage is never accessed out of range, and overflow/underflow is always caught by the internal assertion.",
  ["histories", "configurations"], "all operation histories, all capacities >= 1, all element types",
  "Off-by-one faults show only when the stack is exactly full or empty for some capacity.",
  ["stack.hh"], [("push/pop/top/first", "stack.hh class Stack")], ["storage array and top position"])
p("P03", "Delay line returns the sample from exactly NUM calls ago",
  "For every length NUM and every input history, call t of a delay line returns the input of call t-NUM, or the constructor's initial value while t <= NUM.",
  ["histories", "configurations"], "all input histories, all lengths >= 1",
  "Wrap-around at an arbitrary length and an unbounded number of calls cannot be enumerated.",
  ["delay.hh"], [("ring buffer step", "delay.hh Delay::operator()")], ["ring buffer and position"])
p("P04", "Bip buffer exposes the last NUM samples contiguously in order",
  "After any number of insertions the pointer returned (by the inserting call and by the argument-less call alike) addresses NUM consecutive elements which are the last NUM inputs in chronological order, oldest first, with zeros standing for inputs before the first. All accesses and all NUM exposed elements stay inside the buffer's own storage.",
  ["histories", "configurations"], "all input histories, all lengths >= 1",
  "The two write positions wrap at different times; only some phases expose a stale or misplaced sample.",
  ["bip_buffer.hh"], [("mirrored double write", "bip_buffer.hh BipBuffer::operator()")], ["double-length buffer with two positions"])
p("P05", "Sliding window accelerator equals the fold of the last NUM inputs",
  "For every window length NUM, every associative and commutative operation and every input history, each call returns the combination of exactly the last NUM inputs, where the identity passed to the constructor stands for inputs before the first call.",
  ["histories", "configurations"], "all input histories, all window lengths >= 1 (powers of two or not), all associative-commutative operations",
  "The implicit tree has a different shape for every length; tests use one operation and few lengths.",
  ["swa.hh"], [("bottom-up path update", "swa.hh SWA::operator()")], ["implicit binary tree of partial results"])
p("P06", "Moving minimum/maximum is the extremum of the last NUM inputs",
  "For every window length and every input history, each call of the moving minimum (maximum) returns the smallest (largest) of the last NUM inputs, or of all inputs so far while fewer than NUM were given. This holds for signed integer and floating point sample types, including repeated values and the extreme representable values.",
  ["histories", "configurations", "inputs"], "all histories of finite values, all window lengths >= 1",
  "The two-stack queue only misbehaves for particular patterns of duplicates and monotone runs relative to the window phase.",
  ["movext.hh", "delay.hh", "stack.hh"], [("two-stack queue of suffix extrema", "movext.hh MovExt::operator()"), ("initial extremum", "movext.hh MovMin/MovMax constructors")], ["delay line plus two stacks of candidate extrema"])
p("P07", "All four moving averages compute the mean (or sum) of the last NUM inputs",
  "In exact arithmetic every moving-average variant returns, at each call, the sum of the last NUM inputs (zeros before the first) divided by NUM, or the plain sum when normalisation is switched off; hence all variants agree. The variant offering an absolute deviation returns the mean of |x - average| over exactly those NUM inputs.",
  ["histories", "configurations"], "all input histories and all window lengths >= 1, exact arithmetic",
  "Running-sum drift from one mishandled sample at a wrap-around is invisible in short smoke tests.",
  ["sma.hh", "delay.hh", "swa.hh", "kahan.hh"], [("running sums and re-summation", "sma.hh SMA1..SMA4")])
p("P08", "quick_sort sorts any array in place and keeps its elements",
  "For every length and every array over a totally ordered type, quick_sort leaves the first n elements in non-decreasing order, as a permutation of what they were, and touches nothing outside them.",
  ["inputs"], "all arrays of all lengths n >= 0 (including duplicates and adversarial orders)",
  "Pivot selection and three-way partitioning fail only on particular value patterns above the small-size cutoff.",
  ["quick.hh"], [("median-of-five partition", "quick.hh QUICK::partition"), ("insertion sort below cutoff", "quick.hh QUICK::insertion"), ("recursion", "quick.hh QUICK::sort")])
p("P09", "quick_select returns the k-th smallest element",
  "For every non-empty array of length n and every 0 <= k < n, quick_select returns the element that sorting would put at position k; afterwards nothing before position k is greater and nothing after it is smaller, and the array is a permutation of its former content with nothing outside touched.",
  ["inputs"], "all arrays, all lengths n >= 1, all k",
  "The iterative narrowing only errs for particular k relative to the equal-to-pivot band.",
  ["quick.hh"], [("range narrowing", "quick.hh QUICK::select"), ("entry", "quick.hh quick_select")])
p("P10", "Theil-Sen and repeated-median estimators return the defining medians",
  "For up to the maximum number of points with not all abscissae equal (pairwise distinct for the repeated medians), the Theil-Sen slope is the upper median of all pairwise slopes and its intercept the upper median of y - slope*x; the repeated-median slope is the upper median over points of the upper median of slopes through that point, with the intercept formed the same way (hierarchical variant) or from y - slope*x (second variant). The x-intercept is -yint/slope, evaluating at x gives yint + slope*x, and scratch storage is never overrun.",
  ["inputs", "configurations"], "all point sets up to the capacity, all capacities >= 2",
  "Robust estimators hide mistakes: one wrong slope seldom changes the median, so spot checks pass.",
  ["theil_sen.hh", "repeated_median.hh", "quick.hh"], [("slope collection", "theil_sen.hh TheilSenEstimator::compute"), ("nested medians", "repeated_median.hh")])
p("P11", "Simple linear regression is the least-squares line",
  "For every data set with non-constant abscissae, the fitted slope and intercept satisfy both normal equations (residuals sum to zero and are orthogonal to the abscissae) in exact arithmetic, the uniform-grid constructor agrees with the general one on x0 + i*dx, evaluation returns yint + slope*x, and the x-intercept is a root of the line when the slope is not zero.",
  ["inputs"], "all data sets and all lengths >= 2, exact arithmetic",
  "Collinear test data fit any sensible formula; only scattered data with offset abscissae distinguish them.",
  ["regression.hh"], [("two-pass sums", "regression.hh SimpleLinearRegression constructors")])
p("P12", "Complex numbers obey field arithmetic and polar identities",
  "In exact arithmetic addition, subtraction, negation, multiplication and division of complex and real operands (and their compound-assignment forms) are the field operations, equality is component-wise, conj reflects, norm is |z|^2 and abs its root, arg is the angle of (re, im), and polar(a, b) is a*(cos b + i sin b).",
  ["inputs"], "all operand values (non-zero divisors), exact arithmetic",
  "Sign or operand-order slips in rarely used overloads (real/complex, compound) stay untested.",
  ["complex.hh"], [("operators", "complex.hh class Complex and free operators")])
p("P13", "The fast Fourier transform computes the DFT of any supported size",
  "For every supported size and both signs the transform returns sum_n in[n]*exp(SIGN*2*pi*i*n*k/BINS) in bin k in exact arithmetic, leaving the input unchanged; consequently forward followed by backward transform multiplies by BINS.",
  ["inputs", "configurations"], "all inputs and all sizes whose prime factors the library supports (2..31), both signs, exact arithmetic",
  "Each radix is a separate hand-unrolled kernel selected by the factorisation; tests cover few sizes, and impulses or tones hide swapped terms.",
  ["fft.hh", "complex.hh"], [("radix selection and recombination", "fft.hh class templates Dit"), ("prime kernels", "fft.hh dft functions"), ("twiddle table", "fft.hh FastFourierTransform constructor")])
p("P14", "Real-to-half-complex transform matches the complex DFT",
  "For every even transform length the half-complex spectrum of a real signal equals its complex DFT in every bin except DC and Nyquist, which carry exactly half their DFT value with zero imaginary part.",
  ["inputs", "configurations"], "all real inputs, all supported even sizes, exact arithmetic",
  "The split step mixes mirrored bins; errors cancel for symmetric or single-tone inputs.",
  ["fft.hh"], [("even/odd split of a half-length transform", "fft.hh class RealToHalfComplexTransform")])
p("P15", "Frequency-domain zero padding interpolates its input",
  "For all supported INPUT < OUTPUT the output is the unique band-limited (trigonometric) interpolation of the input sampled on the OUTPUT-point grid, with the Nyquist component of even lengths split evenly; in particular whenever OUTPUT is a multiple of INPUT the original samples reappear unchanged at the coinciding positions.",
  ["inputs", "configurations"], "all inputs, all supported size pairs, exact arithmetic",
  "Odd sizes and close sizes move spectrum halves across each other; the usual power-of-two doubling does not.",
  ["fdzp.hh", "fft.hh"], [("spectrum relocation", "fdzp.hh FDZP::operator()")])
p("P16", "Natural cubic spline interpolates smoothly with natural ends",
  "For every knot count >= 3, every data set and stride, the uniform spline passes through all knots, has continuous value, first and second derivative at inner knots, zero second derivative at both ends, and continues the end polynomials outside the knot range.",
  ["inputs", "configurations"], "all knot values, all knot counts >= 3, strides, origins, non-zero spacings, and evaluation points",
  "A wrong tridiagonal coefficient still interpolates the knots; smoothness needs a universally quantified check.",
  ["spline.hh"], [("tridiagonal solve", "spline.hh UniformNaturalCubicSpline constructor"), ("segment choice", "spline.hh UniformNaturalCubicSpline::operator()")])
p("P17", "Cubic Hermite spline interpolates with finite-difference tangents",
  "For n >= 3 samples on a uniform or arbitrary strictly increasing grid, the Hermite interpolant passes through every sample, and its derivative at each inner sample is the average of the two adjacent difference quotients and at the ends the one-sided quotient, so value and first derivative are continuous; indices never leave the sample arrays and points outside are extrapolated by the end segments.",
  ["inputs"], "all sample values, all n >= 3, all evaluation points",
  "Segment selection at knots, at both ends and outside the range takes distinct code paths that plots do not reveal.",
  ["spline.hh"], [("segment lookup and basis", "spline.hh struct CubicHermiteSpline")])
p("P18", "UnitCircle cos/sin are accurate on the whole circle",
  "For all n, N with |n| <= N (N > 0, products representable) cos(n, N) and sin(n, N) approximate cos(2*pi*n/N) and sin(2*pi*n/N) to within 1e-15 plus rounding in double precision, are exact at multiples of a quarter turn, and rad(n, N) is 2*pi*n/N.",
  ["inputs"], "all integer fractions |n| <= N whose intermediate products fit an int",
  "There are nine range-reduction branches per function and billions of fractions; a wrong low-order coefficient moves results by 1e-9.",
  ["unit_circle.hh", "const.hh"], [("octant reduction and kernels", "unit_circle.hh class UnitCircle")])
p("P19", "atan and atan2 approximations are accurate in every quadrant",
  "The library's atan(x) and atan2(y, x) agree with the true arctangent and four-quadrant arctangent to within 1e-15 plus rounding in double precision for all finite arguments, with the sign of y deciding the result on the negative and positive real axis and +-pi/2 on the imaginary axis.",
  ["inputs"], "all finite arguments (not both zero for atan2 beyond the sign convention)",
  "Three reduction ranges times four quadrants times rational-kernel coefficients; tests sample a grid.",
  ["atan2.hh", "const.hh"], [("range reduction and kernel", "atan2.hh atan, atan2")])
p("P20", "Exponential and decibel helpers are accurate and mutually inverse",
  "ldexp(x, n) is x*2^n for |n| up to 200; exp10(x) agrees with 10^x to a relative 1e-15 plus rounding for |x| <= 60; decibel(v) agrees with 10*log10(v) to 1e-11 dB absolute for v between 1e-100 and 1e100, idecibel is its inverse, and decibel(1) is 0.",
  ["inputs"], "all arguments in the stated ranges",
  "Split constants and power assembly fail only for some exponents; series truncation shows only far from unity.",
  ["exp.hh", "decibel.hh"], [("split reduction and rational kernel", "exp.hh exp10"), ("power assembly", "exp.hh ldexp"), ("root reduction and series", "decibel.hh decibel")])
p("P21", "CORDIC atan2 approximates the angle with bounded error",
  "For 8- and 16-bit signed integers, CORDIC atan2(y, x) returns the angle of (x, y) as a fraction of half a turn scaled to the type's full range, within 1 + 42/(|x|+|y|) units for 8 bits and the smaller of 1 + 43200/(|x|+|y|) and 2 + 40000/(|x|+|y|) units for 16 bits, modulo wrap-around at half a turn; no signed overflow occurs.",
  ["inputs"], "all pairs of representable coordinates except the origin",
  "Table and shift mistakes only hurt some octants or small magnitudes.",
  ["cordic.hh"], [("shift-add rotations", "cordic.hh CORDIC::atan2")])
p("P22", "Kahan summation keeps a compensated running sum",
  "Each accumulation step returns the rounded sum of the running total and the compensated input, and the stored correction accounts for that step's rounding exactly up to second order, so the sum of n values has error at most 3u*sum|x| + O(n u^2)*sum|x|; in exact arithmetic it is the plain sum, kahan_sum covers exactly its range starting from init, and same(x) adds x and reports whether the state did not change.",
  ["inputs", "histories"], "all sequences of finite values under the standard model of floating point rounding",
  "A compiler-dependent or reordered compensation still sums small tests correctly.",
  ["kahan.hh"], [("compensation step", "kahan.hh Kahan::operator()"), ("range sum", "kahan.hh kahan_sum")])
p("P23", "Biquad designs have their defining frequency responses",
  "For every centre/cutoff 0 < n/N < 1/2 and every Q > 0 the designed section is stable and has the textbook response: lowpass gain 1 at DC, 0 at Nyquist and Q at cutoff; highpass mirrored; notch 0 at centre and 1 at DC and Nyquist; bandpass 1 at centre and 0 at DC and Nyquist; allpass magnitude 1 everywhere with gain -1 at centre. The filter step realises the direct-form difference equation, a fresh filter passes its input through, and the cascade applies its sections in sequence with Butterworth quality factors.",
  ["inputs", "configurations"], "all frequencies, quality factors, inputs and cascade lengths, exact arithmetic",
  "A swapped coefficient changes response at frequencies no test looks at.",
  ["biquad.hh", "unit_circle.hh", "decibel.hh"], [("coefficient formulas", "biquad.hh Biquad::lowpass..allpass"), ("difference equation", "biquad.hh Biquad::operator()"), ("cascade", "biquad.hh BiquadCascade")])
p("P24", "Exponential averages and DC blocker have their defining responses",
  "The exponential moving average returns prev + alpha*(input - prev), alpha is 1/s after samples(s), and after cutoff(n, N) with 0 < n/N < 1/2 alpha lies in (0, 1) and the power response at that frequency is exactly one half; the cascade applies ORDER such stages in sequence, each designed by the single-stage rule at n divided by sqrt(2^(1/ORDER)-1), rounded to an integer. The DC blocker has zero gain at DC, unit gain at Nyquist and pole (s-1)/s after samples(s).",
  ["inputs", "configurations"], "all inputs, cutoffs, orders 1..16, exact arithmetic",
  "Responses at the cutoff involve square roots of trigonometric terms; step-response tests do not pin them.",
  ["ema.hh", "blockdc.hh", "utils.hh"], [("recursion and cutoff formula", "ema.hh EMA, EMACascade"), ("DC blocker", "blockdc.hh BlockDC")])
p("P25", "Normalised LMS step removes exactly the chosen fraction of the error",
  "For real and complex signals each step returns the a-priori error desired - estimate of the filter over the last SIZE inputs, then updates the coefficients so that the a-posteriori error for the same inputs is (1-mu) times it; with all-zero history coefficients stay unchanged, and the coefficient array is what the conversion exposes.",
  ["histories", "inputs", "configurations"], "all input histories, filter sizes >= 1 and step sizes, exact arithmetic",
  "Convergence demos converge even with a slightly wrong gradient; only the exact error-reduction identity discriminates.",
  ["lms.hh", "bip_buffer.hh", "complex.hh"], [("estimate, normalise, update", "lms.hh NLMS, NCLMS")])
p("P26", "Triggers implement hysteresis and edge detection",
  "A Schmitt trigger turns on exactly when its input exceeds the upper threshold while off, turns off exactly when it falls below the lower threshold while on, and otherwise keeps its state, where a single threshold t means thresholds -t and t. Rising and falling edge triggers report true exactly at off-to-on and on-to-off changes relative to the previous input.",
  ["histories", "inputs"], "all input histories, thresholds and initial states",
  "Boundary values equal to a threshold and initial states are easy to miss in tests.",
  ["trigger.hh"], [("state update", "trigger.hh")])
p("P27", "Integrator and differentiator are exact inverses",
  "The integrator returns its initial value plus the sum of all inputs so far, the differentiator returns input minus previous input (its initial value first); differentiating an integrated signal and integrating a differentiated one gives the signal back in exact arithmetic when initial values agree.",
  ["histories"], "all input histories, exact arithmetic",
  "Needs induction over unbounded histories and arbitrary initial values.",
  ["calculus.hh"], [("recursions", "calculus.hh")])
p("P28", "Window functions match their definitions, are symmetric and peak at one",
  "For all N >= 2 and 0 <= n < N every window (rectangular, Hann, Hamming, Lanczos, Blackman variants, Gauss, Kaiser) equals its textbook formula, is symmetric under n -> N-1-n, and reaches one at the centre for odd N; Hann ends at 0, Hamming at 0.08, and the rectangular window is zero outside [0, N).",
  ["inputs", "configurations"], "all window lengths, positions and shape parameters",
  "A shifted argument or wrong coefficient still looks like a bell.",
  ["window.hh", "unit_circle.hh", "kahan.hh"], [("window formulas", "window.hh"), ("Bessel series", "window.hh class Kaiser")])
p("P29", "FIR design functions match ideal responses and their rational twins",
  "Low-, high- and band-pass prototypes equal the ideal (sinc) impulse responses centred at (N-1)/2 and are symmetric, the variants taking a rational cutoff num/den agree with the floating-point ones at cutoff num/den, the high-pass equals the band-limited impulse minus the low-pass, the band-pass equals the difference of two low-passes, and the Hilbert prototype is the antisymmetric 2/(pi*x) on odd offsets (1/(pi*x) at half-integer offsets for even N).",
  ["inputs", "configurations"], "all lengths, tap positions and cutoffs (intermediate integers representable)",
  "Parity of N and sign of the offset pick different branches; a plotted response hides small tap errors.",
  ["filter.hh", "utils.hh", "unit_circle.hh"], [("impulse response formulas", "filter.hh")])
p("P30", "Hilbert transformer and complex down-converter are their FIR definitions",
  "For every tap count with (TAPS-1) divisible by four the Hilbert transformer's output is the delayed input times the centre window value plus i times the convolution of the input with the Kaiser-windowed 2/(pi*k) odd-tap response; the down-converter's output equals filtering the input, shifted down by a quarter of the sample rate, with the Kaiser-windowed half-band low-pass and keeping every second sample.",
  ["histories", "configurations"], "all input histories, all admissible tap counts >= 5, window parameters, exact arithmetic",
  "Folded symmetric sums index from the middle outwards; an off-by-one changes a few taps slightly.",
  ["hilbert.hh", "cdc.hh", "window.hh", "filter.hh"], [("folded convolution", "hilbert.hh Hilbert::operator()"), ("decimating folded convolution", "cdc.hh CDC::operator()")])
p("P31", "Phasor steps along the unit circle at the set frequency",
  "A phasor starts at 1 (also after reset), every call returns the current phase factor and advances it by the angle set last (2*pi*n/N, omega or 2*pi*freq), and its output keeps unit magnitude for any number of calls; changing the frequency keeps the phase continuous.",
  ["histories"], "all call histories mixing steps, frequency changes and resets, exact arithmetic",
  "Magnitude or phase drift needs unbounded histories to be excluded.",
  ["phasor.hh", "unit_circle.hh", "complex.hh"], [("rotate and renormalise", "phasor.hh Phasor")])
p("P32", "FM demodulators return the scaled phase increment",
  "For non-zero samples the three angle-based demodulators return the phase difference between consecutive samples wrapped to [-pi, pi], divided by bandwidth*pi, and so agree with each other; the two approximating ones return the cross product with the previous sample normalised by the input's power, and the central difference normalised by the middle sample's power divided by two, respectively, with the same scaling.",
  ["histories", "inputs"], "all histories of non-zero samples and bandwidths, exact arithmetic",
  "Wrapping and normalisation only matter for large steps or varying amplitude.",
  ["fmd.hh", "complex.hh"], [("phase increment", "fmd.hh FMD1..FMD5")])
p("P33", "WAV files written are read back faithfully",
  "For every rate, channel count, 8/16/32-bit format, interleaving stride and sequence of writes and silences (sizes representable, at least one frame), the file produced is a well-formed RIFF/WAVE file whose chunk sizes, rate, channels, bit depth and frame count match what was written, and reading it back (also after skipping) yields every sample with error at most half a quantisation step for 8 and 16 bit after clipping to the representable range, and bit-exact single precision for 32 bit.",
  ["histories", "inputs", "configurations"], "all sample values, write/silence/skip sequences, formats, strides",
  "Header fields are interdependent and read/written far apart; errors cancel when the same code reads what it wrote at one format.",
  ["wav.hh", "pcm.hh"], [("little-endian codec", "wav.hh readLE/writeLE"), ("header", "wav.hh constructors and destructor"), ("sample conversion", "wav.hh read/write/silence")])
p("P34", "Netpbm images written are read back faithfully",
  "For every size, maximum value 1..255, mono or colour layout and stride, the header written is parsed back to the same size, kind and maximum (comment lines directly after the newline ending a token are allowed), and reading a written image yields for each clipped sample the value whose sRGB code differs from the exact one by at most half a code; writing what was read reproduces the same codes.",
  ["inputs", "configurations"], "all sample values, sizes, maxima, layouts and strides",
  "The transfer function has two branches whose threshold falls between different codes per maximum value.",
  ["netpbm.hh", "pel.hh"], [("transfer curves", "netpbm.hh ReadPNM, WritePNM"), ("header parser", "netpbm.hh ReadPNM constructor")])
p("P35", "Resamplers apply the interpolated kernel and stay inside their buffers",
  "The block resampler writes, for each output position it covers, the sum of the windowed-sinc kernel evaluated at each tap's distance from the exact input position times the input samples, skips positions whose taps would fall outside the input and never accesses memory outside the given blocks; the streaming resampler emits every output at a fractional position within half a sample, so that over any run the number of outputs equals the number of inputs times rate/(rate - diff) within one sample, and each output is the same kernel sum over the last TAPS inputs.",
  ["histories", "inputs", "configurations"], "all rate differences with |diff| < rate/2, block lengths, strides and tap counts, exact arithmetic",
  "Drift and boundary accesses appear only for particular ratios and long runs.",
  ["resampler.hh", "spline.hh", "window.hh"], [("block loop", "resampler.hh Resampler::operator()"), ("fractional position", "resampler.hh Resampler2::operator()")])
p("P36", "Coefficient arrays hold the designed taps, normalised on request",
  "A coefficient array holds func(n, TAPS) (or the product of two functions) for each tap, returns zero outside [0, TAPS), exposes the same values through the pointer conversion, and after normalisation by a divisor each tap is its former value divided by divisor*|sum of taps|, so the taps sum to +-1/divisor.",
  ["inputs", "configurations"], "all tap counts >= 1, functions and divisors with non-zero sum, exact arithmetic",
  "Normalising while summing, or using a partially normalised sum, needs asymmetric taps to be seen.",
  ["coeffs.hh"], [("fill and normalise", "coeffs.hh class Coeffs")])
p("P37", "AM demodulation and sine normalisation follow their gain laws",
  "The AM demodulator tracks the amplitude with the attack factor when it rises and the decay factor when it falls, clamps the tracked level to the configured limits and returns (amp/level*(1+index)-1)/index; the sine normaliser returns the DC-blocked input divided by the square root of twice the averaged squared DC-blocked input, and its IQ form normalises both components independently.",
  ["histories", "inputs"], "all input histories and parameters with positive limits, exact arithmetic",
  "Attack/decay swap or a stale level is inaudible in short demos.",
  ["amd.hh", "normalize.hh", "ema.hh", "blockdc.hh", "utils.hh"], [("level tracking", "amd.hh AMD1::operator()"), ("normalisation", "normalize.hh")])
p("P38", "Scalar helpers and constants are exact",
  "signum, lerp, clamp, sinc, delta and normal_pdf equal their mathematical definitions for all arguments (clamp for a <= b, sinc(0) = 1, lerp hits both ends), and every named constant agrees with its mathematical value to full precision of the type it is requested in.",
  ["inputs"], "all arguments; all named constants",
  "A wrong far digit or edge case of a helper is diluted in every caller's tests.",
  ["utils.hh", "const.hh"], [("helpers", "utils.hh"), ("constants", "const.hh struct Const")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
