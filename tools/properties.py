#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, C = 'inputs', 'histories', 'configurations'

# id, title, statement, over, quantifier, why tests can't, files, mechanism, observe, level note
P = [
('C01', 'The fast Fourier transform equals the discrete Fourier transform',
 'For every supported size and both directions, each output bin of the transform equals the mathematical sum of input times root of unity, within the rounding error of the number type. Forward then backward returns the input times the size, the input array is left unchanged, nothing outside the output array is written, and a repeated call gives the same result.',
 [C, I], 'all transform sizes whose prime factors have a kernel (sizes up to 31 plus composites), both signs, float and double; impulses, tones, random and mixed inputs',
 'No test touches the transform; every size instantiates other code, so samples of a few sizes would not settle it.',
 ['fft.hh', 'unit_circle.hh', 'complex.hh'], [('radix kernels and recursive decimation', 'fft.hh: Dit'), ('choice of radix', 'fft.hh: split'), ('twiddle table', 'fft.hh: FastFourierTransform')],
 ['output array of the call operator', 'input array after the call']),
('C02', 'The real transform equals the first half of the complex transform',
 'For every even size the transform of real input yields all bins from zero up to and including half the size, equal to the mathematical Fourier sum within rounding, except that the first and the last bin carry half of it. The imaginary parts of the first and last bin vanish, the input is left unchanged and only half the size plus one bins are written.',
 [C, I], 'even sizes from 2 upward whose half has supported factors, float and double, impulses, tones and random inputs',
 'No test exists; the untangling step has special cases at the first, middle and last bin that depend on whether half the size is even.',
 ['fft.hh'], [('packing two real samples into one complex and untangling', 'fft.hh: RealToHalfComplexTransform')], ['output array']),
('C03', 'Zero padding in the frequency domain interpolates',
 'Upsampling a block by any ratio yields the unique band limited periodic interpolation of the input, evaluated at equidistant points, within rounding. Every supported pair of sizes works, the component at the Nyquist frequency included, without touching memory outside of the given arrays.',
 [C, I], 'pairs of output and input sizes (ratios integer and not, odd and even), tones at every frequency, impulses and random blocks',
 'No test exists; odd sizes and small ratios take paths a single example does not.',
 ['fdzp.hh', 'fft.hh'], [('forward transform, spectrum copy with gap, inverse transform', 'fdzp.hh: FDZP')], ['output array']),
('C04', 'Sine and cosine of fractions of a turn are correctly reduced',
 'For all n within one turn either way and all N below 2^28, the cosine and sine of n/N turns are within a few units in the last place of the true values. Multiples of a quarter turn are exact.',
 [I], 'n in [-N, N], N up to the documented integer range, float and double',
 'The test compares some sizes in one precision; the octant selection must hold at every boundary for every N.',
 ['unit_circle.hh'], [('octant reduction in integers', 'unit_circle.hh: UnitCircle::cos, sin'), ('polynomial kernels', 'unit_circle.hh')], ['return values']),
('C05', 'Arc tangent approximations stay within their error in all quadrants',
 'The approximated arc tangent of one and of two arguments is within its documented error of the true angle for every finite argument of any magnitude. The sign and half plane of the result follow the sign of the ordinate, also on the axes, the origin has angle zero, and results never leave [-Pi, Pi].',
 [I], 'ordinates and abscissas of all magnitudes and signs including zeros, equal magnitudes and neighbours of the axes; float and double',
 'The test walks one circle; the behaviour near the axes and for unequal magnitudes is not sampled.',
 ['atan2.hh'], [('argument reduction and polynomial', 'atan2.hh: atan, atan2')], ['return values']),
('C06', 'The integer arc tangent is accurate over its whole input range',
 'For every pair of 8 or 16 bit integer coordinates except the origin the integer arc tangent returns the angle scaled to the full range of the type, within the error its resolution and the vector length permit, and correct at every quadrant boundary. No coordinate pair causes overflow.',
 [I], 'all pairs of the 8 bit type, dense samples, extremes and circles of the 16 bit type',
 'The test evaluates one circle of fixed radius.',
 ['cordic.hh'], [('rotation by table of angles', 'cordic.hh: CORDIC::atan2')], ['return values']),
('C07', 'Powers of ten and decibels match their definition',
 'Scaling by a power of two, ten to the power of x, conversion to decibels and back agree with the mathematical functions within the stated error over the whole finite range of the number type. Converting to decibels and back returns the value.',
 [I], 'the positive range of float and double, exponents over the whole range, exact powers',
 'No test exists; range ends and exponent extraction need values a few samples do not hit.',
 ['decibel.hh', 'exp.hh'], [('exponent manipulation', 'exp.hh: ldexp'), ('series', 'exp.hh: exp10, decibel.hh')], ['return values']),
('C08', 'Compensated sums do not lose small contributions',
 'The compensated accumulator returns the sum of all values so far within a few units of rounding of the sum of their magnitudes, however many there are, also under compiler options that permit reassociation. Its convergence query adds the value and says whether the accumulator, what it still owes to the sum included, stayed the same, and copies go their own way.',
 [I, H, C], 'sequences with cancelling, growing, shrinking and tiny values of up to millions of terms, in strict and relaxed floating point builds of two compilers',
 'One series in one build is tested; optimizers may legally remove the compensation.',
 ['kahan.hh'], [('optimization barrier and compensation term', 'kahan.hh: Kahan')], ['return values']),
('C09', 'Moving averages equal the mean of the last values',
 'Every moving average variant returns, after each input, the mean (or sum if not normalized) of exactly the last NUM inputs, absent ones counting as zero, within the error its algorithm permits, and the mean absolute deviation likewise. Nothing older than the window has any lasting influence beyond rounding.',
 [H, C], 'window lengths 1 upward, long histories with bursts and silence, real, complex and integer types, all variants',
 'No test exists; errors show only after wrap around, after bursts or for some lengths.',
 ['sma.hh', 'swa.hh', 'delay.hh', 'kahan.hh'], [('ring of past values', 'sma.hh: SMA1, delay.hh'), ('running sums', 'sma.hh: SMA2, SMA3'), ('tree', 'swa.hh')], ['return values']),
('C10', 'Sliding window reduction covers exactly the last values',
 'For any associative and commutative operation with identity the reduction returns after each input the combination of exactly the last NUM inputs, each exactly once. Inputs not yet seen count as the identity.',
 [H, C], 'window lengths 1 to beyond 64 including non powers of two, sum, product, minimum, maximum, xor and multiset union (which exposes any loss or duplication)',
 'No test exists.',
 ['swa.hh'], [('implicit binary tree', 'swa.hh: SWA')], ['return values']),
('C11', 'Moving minimum and maximum cover exactly the last values',
 'After each input the moving minimum and maximum equal the extreme of exactly the last NUM inputs (all of them while fewer were given), for any order of values including duplicates and negative ones. Nothing left the window remains effective.',
 [H, C], 'all words over small alphabets up to bounded length, random, monotone, sawtooth and duplicate heavy histories; window lengths 1 upward; integer and floating types',
 'The test replays one random history of one length.',
 ['movext.hh', 'stack.hh', 'delay.hh'], [('two stacks as a queue with running extremes', 'movext.hh: MovExt')], ['return values']),
('C12', 'Delay lines and history buffers return the past unchanged',
 'A delay of NUM samples returns exactly the input NUM steps ago and the initial value before. A history buffer returns a contiguous block of exactly the last NUM values, oldest first, after every input, valid until the next one.',
 [H, C], 'lengths 1 upward, histories many times longer than the length, several element types, copies taken mid way',
 'No test exists; wrap around positions depend on the length.',
 ['delay.hh', 'bip_buffer.hh'], [('ring position', 'delay.hh'), ('two regions written in step', 'bip_buffer.hh')], ['return values and block']),
('C13', 'The bounded deque behaves like an ideal deque up to its capacity',
 'Any sequence of pushes and pops at both ends and clears yields the fronts, backs, sizes and full and empty states of an ideal deque. Operations on an empty or full one beyond its capacity are stopped by an assertion instead of corrupting it.',
 [H, C], 'random and adversarial operation sequences, all capacities tried including 1, several element types',
 'The test runs one scripted sequence.',
 ['deque.hh'], [('head, tail and count', 'deque.hh: Deque'), ('assertions', 'deque.hh')], ['return values, process termination']),
('C14', 'The bounded stack behaves like an ideal stack up to its capacity',
 'Any sequence of pushes, pops and clears yields the top, first element, size and full and empty states of an ideal stack. Misuse of an empty or full one is stopped by an assertion instead of corrupting it.',
 [H, C], 'random and adversarial operation sequences, capacities from 1, several element types',
 'No test exists.',
 ['stack.hh'], [('position and assertions', 'stack.hh: Stack')], ['return values, process termination']),
('C15', 'Sorting and selecting are correct for every order of the input',
 'Sorting leaves a nondecreasing permutation of the input. Selecting returns the element of the requested rank, leaves a permutation with smaller ones before and larger ones after it, and stops on an empty array or a rank not below the length by an assertion; both need far less than quadratic effort on the usual patterns.',
 [I], 'all permutations and all multiset words of small lengths, patterns (sorted, reversed, organ pipe, equal, few values, sawtooth) and random arrays of larger lengths; several types',
 'The tests sort and select in random arrays.',
 ['quick.hh'], [('pivot selection, three way partition, insertion sort', 'quick.hh')], ['array after the call, return value, number of comparisons']),
('C16', 'Robust line fits equal their median definitions and resist outliers',
 'The estimators return the slope that is the median of pairwise slopes, or the median of the medians per point, and the matching median intercept (the upper one of two middle values); intercepts and evaluation agree with slope and offset. Points with equal abscissa are never divided by zero distance, the inputs are unchanged, and outliers below the breakdown point can not carry the line away.',
 [I, C], 'point sets from 2 points up to the maximum, exact lines, outliers, duplicate abscissas, shuffled orders',
 'No test exists.',
 ['theil_sen.hh', 'repeated_median.hh', 'quick.hh'], [('pairwise slopes and selection', 'theil_sen.hh, repeated_median.hh')], ['slope, intercepts and evaluation']),
('C17', 'Linear regression minimizes the squared error',
 'The regression line over given or equidistant abscissas equals the least squares solution: residuals have zero mean and no correlation with the abscissa within rounding. Intercepts and evaluation agree with slope and offset.',
 [I], 'numbers of points from 2, offsets, spacings and noise of various magnitudes, both ways to give abscissas',
 'No test exists.',
 ['regression.hh'], [('centered sums', 'regression.hh')], ['slope, intercepts and evaluation']),
('C18', 'Complex arithmetic obeys the complex field',
 'All operators between complex and real operands, in place ones included, and conjugate, magnitude, argument, squared magnitude, polar construction and comparison agree with complex arithmetic within rounding.',
 [I], 'operands of various magnitudes and all quadrants including the axes, all operator forms, float and double',
 'No test exists.',
 ['complex.hh'], [('operators', 'complex.hh')], ['return values']),
('C19', 'Window functions follow their formulas',
 'Every window evaluates to its textbook formula at every index for every length from two up, is symmetric about the center, and depends on nothing but its parameters. Outside of its length the rectangular window is zero.',
 [I, C], 'lengths from 2 to a million, all window types and shape parameters, first, middle, last and random indices',
 'No test exists.',
 ['window.hh', 'utils.hh', 'const.hh'], [('formulas and Bessel series', 'window.hh')], ['return values']),
('C20', 'FIR designs have the ideal impulse responses',
 'Low pass, high pass, band pass and Hilbert designs evaluate to the ideal impulse response at every tap for every length and cutoff, given as fraction or as ratio of integers. Coefficient tables hold the (windowed) design, are zero outside their length, and normalization makes them sum to one over the divisor while keeping the sign.',
 [I, C], 'lengths from 1 to thousands both odd and even, cutoffs over the band, special ratios; table lengths from 1',
 'No test exists; the center tap and zero crossings are special cases for some lengths only.',
 ['filter.hh', 'coeffs.hh', 'utils.hh'], [('sinc formulas', 'filter.hh'), ('table and normalization', 'coeffs.hh: Coeffs')], ['return values']),
('C21', 'Second order sections realize the requested responses',
 'A section tuned as low pass, high pass, notch, band pass or all pass has the complex frequency response of the bilinear transform of its analog prototype at every frequency; untuned it passes its input. Retuning keeps the state, and cascades are maximally flat with half power at the cutoff.',
 [C, I, H], 'tunings over the band, quality factors, real and complex signals, retuning amid a stream, cascades of 1 to 8 sections',
 'No test exists; the response is a function of frequency and history.',
 ['biquad.hh'], [('coefficient formulas and direct form recursion', 'biquad.hh')], ['output samples, impulse response']),
('C22', 'Exponential averages have the requested cutoff',
 'The exponential average forgets at the rate set by number of samples or coefficient, starting from the given value; set by cutoff it has half power exactly there and unit gain at zero frequency. The cascade corrects its cutoff for the number of stages, and untuned ones pass their input.',
 [C, I, H], 'cutoffs over the band, numbers of samples, orders 1 to 16, real and complex signals, changes amid a stream',
 'No test exists.',
 ['ema.hh'], [('coefficient from cutoff', 'ema.hh: EMA::cutoff'), ('cascade correction', 'ema.hh: EMACascade')], ['output samples, impulse response']),
('C23', 'Constant parts are removed and amplitudes normalized',
 'The DC blocker suppresses constants, passes the highest frequency with unit gain, and forgets at the rate given. The normalizers bring any sine with any offset to amplitude one without offset, both channels independently.',
 [I, H, C], 'rates, levels and offsets over decades, real and complex signals, changes amid a stream',
 'No test exists.',
 ['blockdc.hh', 'normalize.hh', 'ema.hh'], [('one pole one zero recursion', 'blockdc.hh'), ('running power', 'normalize.hh')], ['output samples']),
('C24', 'The oscillator neither drifts in amplitude nor in frequency',
 'The oscillator starts at one, advances by exactly the requested angle each step, given as fraction, angle or frequency, and keeps unit magnitude over arbitrarily many steps. Changing the frequency continues the phase, and a reset restarts at one with the frequency kept.',
 [H, I], 'frequencies of both signs in all three forms, runs up to millions of steps, changes and resets',
 'No test exists; drift needs long runs.',
 ['phasor.hh', 'unit_circle.hh', 'complex.hh'], [('renormalized rotation', 'phasor.hh')], ['output samples']),
('C25', 'The Hilbert filter yields the analytic signal',
 'The real part of the output is the input delayed by half the filter plus one, the imaginary part the windowed Hilbert transform around the same instant. Tones inside the band come out as rotating pointers of the same amplitude with positive rotation.',
 [I, H, C], 'numbers of taps, window shapes, impulses, noise and tones',
 'No test exists.',
 ['hilbert.hh', 'window.hh'], [('odd tap symmetric filter', 'hilbert.hh')], ['output samples']),
('C26', 'Quarter rate down conversion shifts, filters and decimates',
 'Each pair of real input samples yields one complex output equal to the input shifted down by a quarter of the rate, filtered by the windowed half band filter and decimated by two, with constant delay. Tones around the quarter rate appear around zero with half amplitude.',
 [I, H, C], 'numbers of taps, window shapes, impulses at every phase, noise and tones',
 'No test exists.',
 ['cdc.hh', 'filter.hh', 'window.hh'], [('alternating signs and half band symmetry', 'cdc.hh')], ['output samples']),
('C27', 'Frequency demodulators report the phase advance',
 'Each exact demodulator returns the phase advance between successive samples, wrapped to half a turn, divided by Pi times the bandwidth, independent of the amplitude. The approximating ones return the (averaged) sine of the advance for constant envelopes, and with no bandwidth set all return zero.',
 [I, H, C], 'constant, wandering and jumping frequencies, advances up to the half turn either way, amplitudes over decades, bandwidths',
 'No test exists.',
 ['fmd.hh', 'complex.hh', 'const.hh'], [('phase difference and wrap around', 'fmd.hh')], ['output samples']),
('C28', 'The amplitude demodulator recovers the modulation',
 'The demodulator divides the magnitude by an average that follows with separate attack and decay rates inside the given limits, and maps it by the modulation index. A carrier of known modulation returns the message.',
 [I, H, C], 'attack, decay, limits, index, levels over decades, rising and falling envelopes',
 'No test exists.',
 ['amd.hh', 'utils.hh'], [('averaging with limits', 'amd.hh')], ['output samples']),
('C29', 'Triggers change state exactly at their conditions',
 'The hysteresis trigger switches on only strictly above the upper and off only strictly below the lower threshold and keeps its state between. The edge triggers fire exactly on the respective transitions, the first one relative to the initial state.',
 [H, I], 'all bit histories of twelve steps, values on, next to and far off the thresholds, all constructor forms',
 'No test exists.',
 ['trigger.hh'], [('remembered state', 'trigger.hh')], ['return values']),
('C30', 'Integrator and differentiator are exact inverses of each other',
 'The integrator returns the initial value plus all inputs so far, the differentiator the difference to the previous input, the first one to the initial value. Where arithmetic is exact, either undoes the other.',
 [H, I], 'random histories, initial values, real, integer and complex types',
 'No test exists.',
 ['calculus.hh'], [('running sum and previous value', 'calculus.hh')], ['return values']),
('C31', 'Natural cubic splines interpolate smoothly over equidistant knots',
 'The spline passes through all its knots, is the unique twice continuously differentiable piecewise cubic without curvature at the ends, and continues its end pieces outside. Offset, spacing and stride of the knots are honoured, and the knots are not needed after construction.',
 [I, C], '2 to 257 knots, offsets, spacings, strides, real and complex values, positions on, next to, between and outside of the knots',
 'No test exists.',
 ['spline.hh'], [('tridiagonal solution', 'spline.hh: UniformNaturalCubicSpline')], ['return values']),
('C32', 'Hermite splines interpolate with mean slopes',
 'Over given or equidistant knots the spline passes through all of them with the mean of the adjacent slopes, one sided at the ends, is continuously differentiable, and continues its end pieces outside. Evaluation by position and by interval agree.',
 [I, C], '3 to 3000 knots, uneven and negative spacings, offsets, real and complex values, positions on, next to, between and outside of the knots',
 'No test exists; first, inner and last interval are different code.',
 ['spline.hh'], [('basis polynomials and slopes', 'spline.hh: CubicHermiteSpline')], ['return values']),
('C33', 'Resampling neither loses nor invents time',
 'Each output equals the band limited interpolation of the input at a position advancing by the rate ratio per output: the streaming form emits as many outputs as the accumulated rate difference demands, also when it varies, and stays within half a sample of the input. The block form writes only outputs it has input for, honours the stride, and tones keep their shape.',
 [I, H, C], 'rate differences of both signs up to half the rate, constant and varying, numbers of taps and oversampling, strides, block lengths from shorter than the filter to 90000, real and complex',
 'No test exists; slips show up only after many samples.',
 ['resampler.hh', 'spline.hh', 'window.hh'], [('position accumulator', 'resampler.hh: Resampler2'), ('interpolated prototype filter', 'resampler.hh')], ['output samples and counts']),
('C34', 'Adaptive filters follow the normalized LMS rule',
 'Each step returns the difference of the desired value and the estimate by the coefficients before, and moves the coefficients along the (conjugated) history, oldest first, by the normalized step; silence leaves them alone. With full step the new coefficients explain the sample exactly, and an unknown linear system is identified.',
 [I, H, C], 'lengths from 1 to 32, step sizes, levels, silence, random and linear desired signals, real and complex',
 'No test exists.',
 ['lms.hh', 'bip_buffer.hh'], [('error, power and update', 'lms.hh')], ['return values, coefficients']),
('C35', 'Audio files are well formed and read back as written',
 'Whatever is written to a WAV file, in any number of calls, strides, channels and silences, yields a file whose header describes its content exactly and whose samples are the rounded and clipped values. Reading it back, with any chunking, stride and skipping, returns these values and properties, stays good up to the last frame and notices the end.',
 [I, H, C], '8, 16 and 32 bit formats, 1 to 8000 channels, rates, sizes beyond 16 MB, frame counts including zero, chunkings, strides, values beyond full scale, all integer codes',
 'No test exists.',
 ['wav.hh', 'pcm.hh'], [('header written and patched at the end', 'wav.hh: WriteWAV'), ('parser', 'wav.hh: ReadWAV')], ['bytes of the file, values read, state queries']),
('C36', 'Foreign audio files are accepted or refused, never trusted',
 'Opening and reading any file as WAV has no undefined behaviour: a file is reported good exactly if its header is a complete and consistent one of the supported formats, otherwise it is refused for good. Truncated data is noticed, and nothing reported depends on prior memory content.',
 [I], 'valid files, truncations at every position, flipped bits, extreme fields, swapped formats, noise, missing files and directories',
 'No test exists; the space of files is unbounded.',
 ['wav.hh'], [('header validation', 'wav.hh: ReadWAV constructor'), ('state query', 'wav.hh: ReadWAV::good')], ['state queries, values read, sanitizer reports']),
('C37', 'Image files are well formed and read back as written',
 'Whatever linear pixels are written to a PGM or PPM file, in any chunking and stride, yields a file with a correct header and the rounded and clipped nonlinear codes. Reading it returns the linear values of these codes, and every code of every depth survives reading and writing.',
 [I, H, C], 'gray and color, sizes, all depths up to 255 with all codes, chunkings, strides, values outside of the range',
 'No test exists.',
 ['netpbm.hh', 'pel.hh'], [('transfer functions', 'netpbm.hh: linear, srgb'), ('header', 'netpbm.hh')], ['bytes of the file, values read, state queries']),
('C38', 'Foreign image files are accepted or refused, never trusted',
 'Opening and reading any file as PNM has no undefined behaviour: complete binary gray or color headers, with any number of blanks, tabs, line feeds and comment lines between the numbers, are accepted, others are refused for good. Truncated data is noticed, and nothing reported depends on prior memory content.',
 [I], 'valid headers in all spellings, truncations, other magics, huge numbers, missing numbers, noise, missing files and directories',
 'No test exists; the space of files is unbounded.',
 ['netpbm.hh'], [('header parser', 'netpbm.hh: ReadPNM constructor'), ('state query', 'netpbm.hh: ReadPNM::good')], ['state queries, values read, sanitizer reports']),
('C39', 'No use inside the documented domain has undefined behaviour',
 'No component reads or writes outside of its own and the given memory, uses a value never written, or relies on overflowing or otherwise undefined arithmetic, whatever inputs, histories and configurations inside its documented domain it is used with.',
 [I, H, C], 'the workloads of all other properties, under address, undefined behaviour and memory definedness instrumentation',
 'The tests run without instrumentation and reach a small part of the components.',
 ['*.hh'], [('array sizes and index arithmetic', 'all headers'), ('constructors initializing all members', 'all headers')], ['sanitizer and memcheck reports']),
('C40', 'Objects are independent of each other and of prior memory',
 'The outputs of an object depend on nothing but its own construction and inputs: not on other objects of any kind used before, alternately or concurrently in other threads, nor on what its memory held before. Copies and assigned objects continue like the original and independently of it.',
 ['schedules', H, C], 'all stateful components and functions: repeated in shuffled order over differently filled memory, in pairs taking random turns, copied and assigned at every point, and in four threads at once under a race detector',
 'The tests use one object at a time in one thread.',
 ['*.hh'], [('no shared mutable state, value semantics', 'all headers')], ['output traces, race reports']),
('C41', 'Elementary helpers and constants are exact',
 'Sign, clamping, linear interpolation, cardinal sine, unit impulse and the normal density agree with their definitions for all finite arguments, the singular ones included, and the constants are correctly rounded for each type.',
 [I], 'arguments over many decades, equal arguments, integers, real, complex and integer types',
 'No test exists; everything else builds on them.',
 ['utils.hh', 'const.hh'], [('definitions', 'utils.hh, const.hh')], ['return values']),
('C42', 'Sound and images can be streamed through pipes',
 'Written into a pipe, sound is a header that leaves the length open followed by exactly the samples, and an image is its complete file; nothing else follows when closed. Read from a pipe, properties and samples are the ones sent, each available as soon as its bytes are there, with sound of unknown length. A recording still being written can be read up to where it is, with unknown length.',
 [I, H, C], '8, 16 and 32 bit sound of 1 to 6 channels, gray and color images, chunkings, silences, lengths up to 30000 bytes, three looks into each recording',
 'No test exists; regular files hide what was written before the header is completed, and reading too far.',
 ['wav.hh', 'netpbm.hh'], [('provisional header, completed only if possible', 'wav.hh: WriteWAV'), ('unknown length', 'wav.hh: ReadWAV constructor'), ('header parsed without reading ahead', 'netpbm.hh: ReadPNM constructor')], ['bytes coming out of the pipe, values read, state queries']),
('C43', 'Sliding structures take little effort per input',
 'Delays, history buffers, queues, stacks and running averages handle each input with a number of element operations that does not depend on their length. The sliding reduction combines only in proportion to the logarithm of its length, and the moving extremes compare only a few times per input on average, whatever the order of the inputs.',
 [I, H, C], 'lengths from 1 to 20000; random, rising, falling, equal, sawtooth, up and down and few valued histories',
 'No test looks at the effort, and results do not show it.',
 ['delay.hh', 'bip_buffer.hh', 'deque.hh', 'stack.hh', 'swa.hh', 'sma.hh', 'movext.hh'], [('ring and double buffers', 'delay.hh, bip_buffer.hh, deque.hh'), ('tree of partial results', 'swa.hh'), ('pair of stacks', 'movext.hh')], ['copies, sums and comparisons of an element type that counts them']),
('C44', 'Streaming components do not wear out',
 'Fed continuously, a streaming component yields after a million inputs what a fresh one yields that was given only the recent part of the same stream, as far back as its memory reaches. Nothing builds up, runs out or wraps around with the number of inputs.',
 [I, H, C], 'streams of a million inputs through delays, moving averages and extremes, recursive filters, normalizers, Hilbert and down converters, demodulators, triggers, resamplers, adaptive filters and containers',
 'The tests end after a few thousand inputs; counters and growing sums fail much later.',
 ['delay.hh', 'bip_buffer.hh', 'movext.hh', 'sma.hh', 'ema.hh', 'biquad.hh', 'blockdc.hh', 'normalize.hh', 'hilbert.hh', 'cdc.hh', 'fmd.hh', 'amd.hh', 'trigger.hh', 'calculus.hh', 'resampler.hh', 'lms.hh', 'deque.hh', 'stack.hh'], [('positions in the history', 'delay.hh, bip_buffer.hh, deque.hh'), ('running sums', 'sma.hh'), ('recursive state', 'ema.hh, biquad.hh, blockdc.hh'), ('fraction of a sample', 'resampler.hh')], ['return values late in the stream']),
]

TECHNIQUE = {
    'C39': 'ASan, UBSan and memcheck over the workloads of all harnesses',
    'C40': 'trace comparison of interleaved, copied and concurrent objects; TSan',
    'C44': 'outputs late in a long stream compared with those of a fresh object fed only the recent past',
    'C43': 'counts of element operations observed per call, against bounds in the length',
    'C36': 'oracle parser on mutated files under ASan and UBSan',
    'C38': 'oracle parser on mutated files under ASan and UBSan',
}
NOTES = {
    'C39': 'held on all executions observed by the sanitizers; overflow inside one object is seen only where array bounds are static',
    'C40': 'held on the traces compared; races are judged by happens-before on the observed schedules',
}


def main():
    with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
        for pid, title, statement, over, text, why, files, mech, observe in P:
            assert len(title) <= 80, title
            assert statement.count('. ') <= 2, pid
            f.write(json.dumps({
                'id': pid, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                            'observe_at': observe, 'hook_needed': None}}) + '\n')
    checks = []
    for p in P:
        pid = p[0]
        checks.append({
            'property': pid,
            'quick_cmd': 'VERIF_TIER=quick python3 check.py %s' % pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % pid,
            'technique': TECHNIQUE.get(pid, 'runtime monitors with reference oracle; ASan, UBSan and fast-math builds'),
            'level': 'exploration',
            'level_note': NOTES.get(pid, 'held on the seeded executions observed, in the sanitizer and the project\'s own build flavour; '
                                    'trusts the long double reference of the monitor and its tolerances'),
        })
    with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': [],
                   'notes': 'No hooks in /repo: all observations are made through the public interface.'}, f, indent=1)
        f.write('\n')


main()
