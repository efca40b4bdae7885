// C24: oscillator
#include <complex>
#include "mon.hh"
#include "complex.hh"
#include "const.hh"
#include "phasor.hh"

using namespace mon;

template <typename C>
static void all(Rng &rng)
{
	typedef typename C::value_type T;
	const LD u = eps<T>();
	auto seen = [&](C v, LD turns, LD steps, long t) {
		turns -= std::floor(turns);
		LD c = std::cos(2 * pi() * turns), s = std::sin(2 * pi() * turns), tol = (6 + 2.5L * steps) * u;
		NEAR("phasor.real", v.real(), c, tol, t);
		NEAR("phasor.imag", v.imag(), s, tol, t);
		NEAR("phasor.magnitude", std::hypot((LD)v.real(), (LD)v.imag()), 1, 4 * u, t);
	};
	for (int c = 0; c < cases(300, 6000); ++c) {
		int kind = c % 3, N = (int)std::abs(rng.loguni(1, 2e8)), n = (int)rng.in(-N, N);
		T v = T(kind == 1 ? rng.uni(-7, 7) : rng.uni(-1, 1));
		int len = c % 50 == 0 ? (int)cases(100000, 1000000) : (int)std::abs(rng.loguni(1, 3000));
		LD step = kind == 0 ? (LD)n / N : kind == 1 ? v / (2 * pi()) : (LD)v;
		run(true, "Phasor<%s> %s n=%d N=%d v=%g len=%d", name<T>(), kind == 0 ? "n/N" : kind == 1 ? "omega" : "freq", n, N, (double)v, len);
		Box<DSP::Phasor<C>> dut((int)rng.in(0, 255));
		// stands still before being told
		if (c & 1)
			for (int t = 0; t < 3; ++t)
				seen((*dut)(), 0, 0, t);
		if (kind == 0)
			dut->omega(n, N);
		else if (kind == 1)
			dut->omega(v);
		else
			dut->freq(v);
		for (int t = 0; t < len; ++t)
			seen((*dut)(), step * t, t * (kind == 2 ? 2 + 4 * std::abs(step) : 2), t);
		// a new frequency continues from the phase reached
		if (c % 4 == 1) {
			dut->omega(1, 360);
			for (int t = 0; t < 400; ++t)
				seen((*dut)(), step * len + t / (LD)360, 2 * t + len * (kind == 2 ? 2 + 4 * std::abs(step) : 2), len + t);
		}
		// a reset restarts it and keeps the frequency
		if (c % 4 == 2) {
			dut->reset();
			for (int t = 0; t < 100; ++t)
				seen((*dut)(), step * t, t * (kind == 2 ? 2 + 4 * std::abs(step) : 2), t);
		}
		event("oscillations");
		event("outputs", len);
	}
	// frequencies set again and again, to anything, also to the same or to nothing
	for (int c = 0; c < cases(60, 1500); ++c) {
		run(true, "Phasor<%s> modulated case %d", name<T>(), c);
		Box<DSP::Phasor<C>> dut((int)rng.in(0, 255));
		LD turns = 0, steps = 0, step = 0;
		int kind = 0, n = 0, N = 1;
		T v = 0;
		long t = 0;
		for (int part = 0; part < 40; ++part) {
			static const int num[] = { 0, 1, -1, 1, -1, 1, -1, 1, -1, 3, -3 }, den[] = { 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8 };
			if (rng.one_in(8)) {
				dut->reset();
				turns = steps = 0;
			}
			int what = (int)rng.in(0, 7);
			if (what > 0) {
				// else once more the one before
				kind = (int)rng.in(0, 2);
				int i = (int)rng.in(0, 10);
				N = what < 5 ? den[i] : (int)std::abs(rng.loguni(1, 2e8));
				n = what < 5 ? num[i] : (int)rng.in(-N, N);
				if (what == 4)
					N *= 1 << rng.in(0, 20), n *= N / den[i];
				v = T(kind == 1 ? 2 * pi() * n / N : (LD)n / N);
			}
			if (kind == 0)
				dut->omega(n, N);
			else if (kind == 1)
				dut->omega(v);
			else
				dut->freq(v);
			step = kind == 0 ? (LD)n / N : kind == 1 ? v / (2 * pi()) : (LD)v;
			for (int i = (int)rng.in(0, 12); i > 0; --i) {
				seen((*dut)(), turns, steps, t++);
				turns += step;
				steps += kind == 2 ? 2 + 4 * std::abs(step) : 2;
			}
		}
		seen((*dut)(), turns, steps, t);
		event("modulations");
	}
	for (int c = 0; c < (int)cases(1, 3); ++c) {
		int N = (int)rng.in(1000, 50000), n = (int)rng.in(1, N - 1), len = (int)cases(2000000, 20000000);
		run(true, "Phasor<%s> long run n=%d N=%d len=%d", name<T>(), n, N, len);
		DSP::Phasor<C> dut;
		dut.omega(n, N);
		LD lo = 2, hi = 0;
		for (int t = 0; t < len; ++t) {
			C v = dut();
			LD m = (LD)v.real() * v.real() + (LD)v.imag() * v.imag();
			lo = std::min(lo, m);
			hi = std::max(hi, m);
		}
		NEAR("phasor.no-decay", lo, 1, 8 * u, len);
		NEAR("phasor.no-growth", hi, 1, 8 * u, len);
	}
}

void workload()
{
	Rng rng(24);
	all<DSP::Complex<float>>(rng);
	all<DSP::Complex<double>>(rng);
	all<std::complex<float>>(rng);
	all<std::complex<double>>(rng);
}
