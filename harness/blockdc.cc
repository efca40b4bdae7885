// C23: removing the constant part and normalizing amplitudes
#include "mon.hh"
#include "complex.hh"
#include "normalize.hh"

using namespace mon;

typedef std::complex<LD> CLD;

struct Block
{
	LD a = 0, b = 0.5L, x1 = 0, y1 = 0;
	void samples(int s) { a = (LD)(s - 1) / s; b = (1 + a) / 2; }
	LD operator () (LD x) { LD y = b * (x - x1) + a * y1; x1 = x; return y1 = y; }
};

template <typename T>
static void dc(Rng &rng)
{
	const LD u = eps<T>();
	for (int c = 0; c < cases(120, 3000); ++c) {
		int s = c < 10 ? c + 1 : (int)std::abs(rng.loguni(1, 1e9));
		LD scale = std::abs(rng.loguni(1e-15, 1e15));
		run(true, "BlockDC<%s> samples=%d scale=%.4Lg", name<T>(), s, scale);
		Block ref;
		Box<DSP::BlockDC<T, T>> dut((int)rng.in(0, 255));
		// before any setting: half the difference
		for (int t = 0; t < 10; ++t) {
			T x = T(scale * rng.wave());
			NEAR("blockdc.default", (*dut)(x), ref(x), 4 * u * scale, t, s);
		}
		dut->samples(s);
		ref.samples(s);
		LD drift = std::min((LD)400, (LD)s);
		for (int t = 0; t < 400; ++t) {
			T x = T(scale * rng.wave());
			NEAR("blockdc.output", (*dut)(x), ref(x), (6 + 3 * drift) * u * scale, t, s);
			if (t == 200 && c % 3 == 0) {
				int n = (int)std::abs(rng.loguni(1, 1e9));
				drift = std::min((LD)400, (LD)std::max(n, s));
				dut->samples(n);
				ref.samples(n);
			}
		}
		// complex signals: both parts alike
		Box<DSP::BlockDC<DSP::Complex<T>, T>> both((int)rng.in(0, 255));
		Block re, im;
		both->samples(s);
		re.samples(s);
		im.samples(s);
		for (int t = 0; t < 100; ++t) {
			std::complex<double> v = rng.waves();
			DSP::Complex<T> x(scale * v.real(), scale * v.imag()), y = (*both)(x);
			LD tol = (6 + 3 * std::min((LD)100, (LD)s)) * u * scale;
			NEAR("blockdc.complex", y.real(), re(x.real()), tol, t, s);
			NEAR("blockdc.complex", y.imag(), im(x.imag()), tol, t, s);
		}
		event("filters", 2);
	}
	// a constant vanishes, the fastest oscillation stays
	for (int c = 0; c < cases(40, 800); ++c) {
		int s = (int)std::abs(rng.loguni(1, 300));
		T level = T(rng.loguni(0.01, 100));
		run(true, "BlockDC<%s> samples=%d level=%g", name<T>(), s, (double)level);
		DSP::BlockDC<T, T> flat, fast;
		flat.samples(s);
		fast.samples(s);
		T last = 0, osc = 0;
		int settle = 40 * s + 20;
		for (int t = 0; t < settle; ++t) {
			last = flat(level);
			osc = fast(t & 1 ? -level : level);
		}
		NEAR("blockdc.constant", last, 0, 4 * u * s * std::abs((LD)level), s);
		NEAR("blockdc.nyquist", std::abs((LD)osc), std::abs((LD)level), (8 + 4 * s) * u * std::abs((LD)level), s);
		event("settled levels", 2);
	}
}

template <typename T>
static void normal(Rng &rng)
{
	const LD u = eps<T>();
	for (int c = 0; c < cases(40, 1500); ++c) {
		int s = (int)std::abs(rng.loguni(2, 1e6));
		LD scale = std::abs(rng.loguni(0.1, 10));
		run(true, "NormalizeSine<%s> samples=%d scale=%.4Lg", name<T>(), s, scale);
		Box<DSP::NormalizeSine<T>> dut((int)rng.in(0, 255));
		dut->samples(s);
		Box<DSP::NormalizeIQ<DSP::Complex<T>>> iq((int)rng.in(0, 255));
		iq->samples(s);
		Block ref, refq;
		ref.samples(s);
		refq.samples(s);
		LD pow = 0.5L, powq = 0.5L, a = 1 / (LD)s;
		for (int t = 0; t < 300; ++t) {
			if (t == 150 && c % 3 == 0) {
				// set anew while running: all else is kept
				int n = (int)rng.in(2, 2 * s);
				dut->samples(n);
				iq->samples(n);
				ref.samples(n);
				refq.samples(n);
				a = 1 / (LD)n;
			}
			T x = T(scale * rng.wave()), q = T(5 * scale * rng.wave());
			LD tmp = ref(x), tmpq = refq(q);
			pow = (1 - a) * pow + a * tmp * tmp;
			powq = (1 - a) * powq + a * tmpq * tmpq;
			LD amp = std::sqrt(2 * pow), ampq = std::sqrt(2 * powq);
			LD loss = (8 + 4 * std::min((LD)t, (LD)2 * s)) * u;
			LD tol = loss * (scale / amp) * (1 + scale / amp), tolq = loss * (5 * scale / ampq) * (1 + 5 * scale / ampq);
			NEAR("normalize.output", (*dut)(x), tmp / amp, tol, t, s);
			DSP::Complex<T> y = (*iq)(DSP::Complex<T>(x, q));
			NEAR("normalize.i", y.real(), tmp / amp, tol, t, s);
			NEAR("normalize.q", y.imag(), tmpq / ampq, tolq, t, s);
		}
		event("normalizers", 2);
	}
	// any sine comes out with amplitude one, free of its offset
	for (int c = 0; c < cases(20, 400); ++c) {
		int s = (int)rng.in(800, 2000);
		LD f = rng.uni(0.05, 0.45), amp = std::abs(rng.loguni(0.01, 100)), off = amp * rng.uni(-3, 3), phase = rng.uni(0, 6);
		LD ampq = std::abs(rng.loguni(0.01, 100)), offq = ampq * rng.uni(-3, 3);
		run(true, "NormalizeIQ<%s> samples=%d f=%.4Lg amplitudes %.4Lg %.4Lg offsets %.4Lg %.4Lg", name<T>(), s, f, amp, ampq, off, offq);
		DSP::NormalizeIQ<DSP::Complex<T>> iq;
		iq.samples(s);
		LD peak[2] = { 0, 0 }, sum[2] = { 0, 0 }, sq[2] = { 0, 0 };
		int settle = 24 * s, look = 4000;
		for (int t = 0; t < settle + look; ++t) {
			LD w = 2 * pi() * std::fmod(f * t, 1.L) + phase;
			DSP::Complex<T> y = iq(DSP::Complex<T>(off + amp * std::cos(w), offq + ampq * std::sin(w)));
			if (t < settle)
				continue;
			LD v[2] = { (LD)y.real(), (LD)y.imag() };
			for (int i = 0; i < 2; ++i) {
				peak[i] = std::max(peak[i], std::abs(v[i]));
				sum[i] += v[i];
				sq[i] += v[i] * v[i];
			}
		}
		for (int i = 0; i < 2; ++i) {
			NEAR("normalize.amplitude", std::sqrt(2 * sq[i] / look), 1, 0.01L, i, s);
			LE("normalize.peak", peak[i], 1.02L, i, s);
			NEAR("normalize.offset", sum[i] / look, 0, 0.02L, i, s);
		}
		event("settled sines", 2);
	}
}

void workload()
{
	Rng rng(23);
	dc<float>(rng);
	dc<double>(rng);
	normal<float>(rng);
	normal<double>(rng);
}
