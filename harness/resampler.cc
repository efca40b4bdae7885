// C33: resampling by small rate differences
#include "mon.hh"
#include "complex.hh"
#include "resampler.hh"

using namespace mon;

typedef std::complex<LD> CLD;

static LD bessel(LD x)
{
	LD sum = 1, val = 1;
	for (int n = 1; n < 200; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}

// the prototype filter, interpolated between its oversampled points
struct Kernel
{
	std::vector<LD> y, m;
	int over;
	Kernel(int taps, int over, LD rate, LD cutoff, LD alpha) : over(over)
	{
		int n = taps * over;
		y.resize(n);
		m.assign(n, 0);
		for (int i = 0; i < n; ++i) {
			LD x = i / (LD)over - (taps - 1) / 2.L, f = 2 * cutoff / rate, w = 2 * i / (LD)(n - 1) - 1, r = 1 - w * w;
			y[i] = (x == 0 ? f : std::sin(pi() * f * x) / (pi() * x)) * bessel(pi() * alpha * std::sqrt(r < 0 ? 0 : r)) / bessel(pi() * alpha);
		}
		std::vector<LD> d(n, 0), p(n, 0);
		for (int i = 1; i < n - 1; ++i) {
			LD den = 4 - p[i - 1];
			p[i] = 1 / den;
			d[i] = (6 * (y[i - 1] - 2 * y[i] + y[i + 1]) - d[i - 1]) / den;
		}
		for (int i = n - 2; i > 0; --i)
			m[i] = d[i] - p[i] * m[i + 1];
	}
	LD operator () (LD x) const
	{
		x *= over;
		int n = (int)y.size(), k = std::max(0, std::min((int)std::floor(x), n - 2));
		LD b = x - k, a = 1 - b;
		return a * y[k] + b * y[k + 1] + ((a * a * a - a) * m[k] + (b * b * b - b) * m[k + 1]) / 6;
	}
};

template <typename IO> struct In { static IO make(LD re, LD) { return IO(re); } static CLD see(IO v) { return v; } };
template <typename V> struct In<DSP::Complex<V>>
{
	static DSP::Complex<V> make(LD re, LD im) { return DSP::Complex<V>(re, im); }
	static CLD see(DSP::Complex<V> v) { return CLD(v.real(), v.imag()); }
};

template <typename T, typename IO, int TAPS, int OVER>
static void block(Rng &rng, const char *type)
{
	const LD u = eps<T>();
	for (int c = 0; c < cases(5, 60); ++c) {
		T rate = c & 1 ? T(8000) : T(std::abs(rng.loguni(1, 1e6))), cutoff = T(rate * rng.uni(0.3, 0.5)), alpha = T(c % 5 == 3 ? rng.in(0, 3) : rng.uni(0, 3));
		T diff = c == 0 ? T(0) : T(rate * rng.uni(-0.01, 0.01));
		if (c % 5 == 4)
			diff = T(rate * rng.uni(-0.3, 0.5));
		int stride = c % 3 == 2 ? (int)rng.in(2, 4) : 1, samples = c == 3 ? (int)rng.in(1, TAPS + 2) : (int)rng.in(TAPS, 600);
		run(true, "Resampler<%s,%d,%d> rate=%g cutoff=%g alpha=%g diff=%g samples=%d stride=%d", type, TAPS, OVER, (double)rate, (double)cutoff, (double)alpha, (double)diff, samples, stride);
		Kernel h(TAPS, OVER, rate, cutoff, alpha);
		Box<DSP::Resampler<T, TAPS, OVER>> dut((int)rng.in(0, 255), rate, cutoff, alpha);
		Buf<IO> in((samples - 1) * stride + 1), out((samples - 1) * stride + 1);
		const LD mark = 12345, level = rng.one_in(2) ? 1 : std::abs(rng.loguni(1e-12, 1e12));
		for (int i = 0; i < in.size(); ++i) {
			in[i] = In<IO>::make(level * rng.wave(), level * rng.wave());
			out[i] = In<IO>::make(mark, mark);
		}
		if (stride == 1)
			(*dut)(out.data(), in.data(), diff, samples);
		else
			(*dut)(out.data(), in.data(), diff, samples, stride);
		LD ratio = (LD)rate / ((LD)rate + diff), bound = 0;
		for (LD v : h.y)
			bound = std::max(bound, std::abs(v));
		std::vector<char> written(out.size(), 0);
		for (int i = 0; i < samples - TAPS; ++i) {
			LD x = i * ratio, frac = x - std::floor(x);
			int s0 = (int)std::nearbyint(x), j = (i + (TAPS - 1) / 2) * stride;
			LD slip = i * ratio * u * 3;
			bool tie = std::abs(frac - 0.5L) < slip + 1e-9L;
			// at the end the last output may or may not find enough input
			if (tie && s0 + 1 + TAPS > samples) {
				written[j] = 1;
				continue;
			}
			if (s0 + TAPS > samples)
				continue;
			written[j] = 1;
			if (tie)
				continue;
			CLD want = 0;
			LD mag = 0;
			for (int s = s0; s < s0 + TAPS; ++s) {
				CLD v = In<IO>::see(in[s * stride]);
				want += h(s - x) * v;
				mag += std::abs(v) * std::abs(h(s - x));
			}
			// rounding of the position, table and sum
			LD tol = u * (60 + TAPS) * mag + level * (4 * slip * std::sqrt((LD)TAPS) + u * (60 + TAPS) * bound + 30 * u * OVER);
			CLD got = In<IO>::see(out[j]);
			NEAR("resampler.output", got.real(), want.real(), tol, i, TAPS);
			NEAR("resampler.output", got.imag(), want.imag(), tol, i, TAPS);
		}
		for (int i = 0; i < out.size(); ++i)
			if (!written[i])
				OK("resampler.untouched", In<IO>::see(out[i]).real() == mark, i, samples);
		event("blocks");
	}
	// tones keep their shape and move by the rate difference
	if (TAPS < 33 || TAPS % 2 == 0)
		return;
	for (int c = 0; c < cases(3, 40); ++c) {
		T rate = 8000, diff = T(rng.uni(-40, 40));
		LD f = rng.uni(0.02, 0.3), phase = rng.uni(0, 6);
		int samples = 1000, half = (TAPS - 1) / 2;
		run(true, "Resampler<%s,%d,%d> tone f=%.4Lg diff=%g", type, TAPS, OVER, f, (double)diff);
		DSP::Resampler<T, TAPS, OVER> dut(rate, T(3600), T(2));
		Buf<IO> in(samples), out(samples);
		for (int i = 0; i < samples; ++i) {
			LD w = 2 * pi() * f * i + phase;
			in[i] = In<IO>::make(std::cos(w), std::sin(w));
			out[i] = In<IO>::make(0, 0);
		}
		dut(out.data(), in.data(), diff, samples);
		LD ratio = (LD)rate / ((LD)rate + diff);
		for (int i = half; i < samples - TAPS - 20; ++i) {
			LD w = 2 * pi() * f * ((i - half) * ratio + half) + phase;
			NEAR("resampler.tone", In<IO>::see(out[i]).real(), std::cos(w), 0.02L, i);
		}
		event("tones");
	}
}

// far into a block the positions are as exact as at its begin
template <typename T, typename IO, int TAPS, int OVER>
static void far(Rng &rng, const char *type)
{
	static const int R[][2] = { { 1025, -1 }, { 1023, 1 }, { 4100, -4 }, { 65, -1 }, { 2047, 1 } };
	const LD u = eps<T>();
	for (int c = 0; c < cases(3, 10); ++c) {
		// the ratio is a fraction of a power of two, so exact
		const int *r = R[c % 5];
		T rate = T(r[0]), diff = T(r[1]), cutoff = T(rate * rng.uni(0.3, 0.5)), alpha = T(c % 5 == 3 ? rng.in(0, 3) : rng.uni(0, 3));
		int samples = (int)rng.in(50000, 90000);
		run(true, "Resampler<%s,%d,%d> far rate=%d diff=%d cutoff=%g alpha=%g samples=%d", type, TAPS, OVER, r[0], r[1], (double)cutoff, (double)alpha, samples);
		Kernel h(TAPS, OVER, rate, cutoff, alpha);
		Box<DSP::Resampler<T, TAPS, OVER>> dut((int)rng.in(0, 255), rate, cutoff, alpha);
		Buf<IO> in(samples), out(samples);
		for (int i = 0; i < samples; ++i)
			in[i] = In<IO>::make(rng.wave(), rng.wave());
		(*dut)(out.data(), in.data(), diff, samples);
		LD ratio = (LD)rate / ((LD)rate + diff), bound = 0;
		for (LD v : h.y)
			bound = std::max(bound, std::abs(v));
		for (int i = (int)rng.in(0, 9); i < samples - TAPS; i += (int)rng.in(1, 40)) {
			LD x = i * ratio, frac = x - std::floor(x);
			int s0 = (int)std::nearbyint(x), j = i + (TAPS - 1) / 2;
			if (s0 + TAPS > samples)
				break;
			if (frac == 0.5L)
				continue;
			CLD want = 0;
			LD mag = 0;
			for (int s = s0; s < s0 + TAPS; ++s) {
				CLD v = In<IO>::see(in[s]);
				want += h(s - x) * v;
				mag += std::abs(v) * std::abs(h(s - x));
			}
			LD tol = (u * (60 + 8 * TAPS) * (mag + bound) + 30 * u * OVER) / 4;
			CLD got = In<IO>::see(out[j]);
			NEAR("resampler.far", got.real(), want.real(), tol, i, TAPS);
			NEAR("resampler.far", got.imag(), want.imag(), tol, i, TAPS);
		}
		event("long blocks");
	}
}

template <typename T, typename IO, int TAPS, int OVER>
static void stream(Rng &rng, const char *type)
{
	const LD u = eps<T>();
	for (int c = 0; c < cases(5, 60); ++c) {
		T rate = c & 1 ? T(8000) : T(std::abs(rng.loguni(1, 1e6))), cutoff = T(rate * rng.uni(0.3, 0.5)), alpha = T(c % 5 == 3 ? rng.in(0, 3) : rng.uni(0, 3));
		LD most = c % 5 == 4 ? 0.45L : c % 5 == 0 ? 0 : 0.01L;
		T diff = T(rate * rng.uni((double)-most, (double)most));
		bool vary = c % 3 == 1;
		int len = 1500;
		run(true, "Resampler2<%s,%d,%d> rate=%g cutoff=%g alpha=%g diff=%g%s", type, TAPS, OVER, (double)rate, (double)cutoff, (double)alpha, (double)diff, vary ? " varying" : "");
		Kernel h(TAPS, OVER, rate, cutoff, alpha);
		Box<DSP::Resampler2<T, IO, TAPS, OVER>> dut((int)rng.in(0, 255), rate, cutoff, alpha);
		std::vector<CLD> x(TAPS - 1, 0);
		LD level = rng.one_in(2) ? 1 : std::abs(rng.loguni(1e-12, 1e12));
		LD pos = 0, bound = 0;	// of the next output on the axis of the input
		for (LD v : h.y)
			bound = std::max(bound, std::abs(v));
		long made = 0;
		int skipped = 0, doubled = 0;
		for (int t = 0; t < len; ++t) {
			IO in = In<IO>::make(level * rng.wave(), level * rng.wave());
			x.push_back(In<IO>::see(in));
			if (vary)
				diff = T(rate * rng.uni((double)-most, (double)most));
			Buf<IO> out(2);
			int n = (*dut)(out.data(), in, diff);
			OK("resampler2.count", n >= 0 && n <= 2, t, n);
			if (n < 0 || n > 2)
				break;
			skipped += n == 0;
			doubled += n == 2;
			LD step = 1 - (LD)diff / rate;
			for (int i = 0; i < n; ++i) {
				// how far this output is behind the newest input
				LD behind = t - pos, slip = u * (4 + 2 * made);
				NEAR("resampler2.aligned", behind, 0, 0.5L + slip + 1e-9L, t, i);
				CLD want = 0;
				LD mag = 0;
				for (int s = 0; s < TAPS; ++s) {
					CLD v = x[t + s];
					want += h(s + behind) * v;
					mag += std::abs(v) * std::abs(h(s + behind));
				}
				CLD got = In<IO>::see(out[i]);
				LD tol = u * (60 + TAPS) * mag + level * (4 * slip * std::sqrt((LD)TAPS) + u * (60 + TAPS) * bound + 30 * u * OVER);
				NEAR("resampler2.output", got.real(), want.real(), tol, t, TAPS);
				NEAR("resampler2.output", got.imag(), want.imag(), tol, t, TAPS);
				pos += step;
				++made;
			}
		}
		// nothing lost, nothing invented
		NEAR("resampler2.balance", pos, len, 1.5L, made);
		event("skipped outputs", skipped);
		event("doubled outputs", doubled);
		event("streams");
	}
}

template <typename T>
static void all(Rng &rng, const char *real, const char *cplx)
{
	typedef DSP::Complex<T> C;
	block<T, T, 33, 16>(rng, real);
	block<T, C, 33, 8>(rng, cplx);
	block<T, T, 8, 4>(rng, real);
	block<T, T, 17, 32>(rng, real);
	block<T, C, 65, 4>(rng, cplx);
	block<T, T, 3, 5>(rng, real);
	far<T, T, 17, 8>(rng, real);
	far<T, C, 33, 4>(rng, cplx);
	stream<T, T, 33, 16>(rng, real);
	stream<T, C, 33, 8>(rng, cplx);
	stream<T, T, 8, 4>(rng, real);
	stream<T, C, 17, 32>(rng, cplx);
	stream<T, T, 3, 5>(rng, real);
}

void workload()
{
	Rng rng(33);
	all<float>(rng, "float", "complex<float>");
	all<double>(rng, "double", "complex<double>");
}
