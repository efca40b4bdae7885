// C25: analytic signals
#include "mon.hh"
#include "complex.hh"
#include "const.hh"
#include "hilbert.hh"

using namespace mon;

static LD bessel(LD x)
{
	LD sum = 1, val = 1;
	for (int n = 1; n < 200; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}

static LD kaiser(LD a, int n, int N)
{
	LD x = 2 * n / (LD)(N - 1) - 1, y = 1 - x * x;
	return bessel(pi() * a * std::sqrt(y < 0 ? 0 : y)) / bessel(pi() * a);
}

template <typename T, int TAPS>
static void filter(Rng &rng)
{
	typedef DSP::Complex<T> C;
	const LD u = eps<T>();
	const int HALF = (TAPS - 1) / 2;
	for (int c = 0; c < cases(12, 300); ++c) {
		T a = c % 3 == 0 ? T(2) : c % 4 == 2 ? T(rng.in(0, 3)) : T(rng.uni(0, 3));
		if (c == 4)
			a = 0;
		LD scale = std::abs(rng.loguni(1e-15, 1e15));
		int len = 3 * TAPS + 20;
		run(true, "Hilbert<%s,%d> a=%g case %d", name<T>(), TAPS, (double)a, c);
		Box<DSP::Hilbert<C, TAPS>> given((int)rng.in(0, 255), a), standard((int)rng.in(0, 255));
		DSP::Hilbert<C, TAPS> &dut = c % 3 == 0 && c & 1 ? *standard : *given;
		std::vector<LD> x(TAPS, 0), co(HALF + 1, 0);
		LD tol = 2 * u;
		for (int m = 1; m <= HALF; m += 2) {
			co[m] = kaiser(a, HALF + m, TAPS) * 2 / (pi() * m);
			tol += (8 + TAPS / 8) * u * co[m] * 2;
		}
		for (int t = 0; t < len; ++t) {
			T in = T(c % 4 == 1 ? (t == 0) * scale : scale * rng.wave());
			// latency: half the filter and one
			int center = (int)x.size() - 1 - HALF;
			LD im = 0;
			for (int m = 1; m <= HALF; m += 2)
				im += co[m] * (x[center - m] - x[center + m]);
			C y = dut(in);
			NEAR("hilbert.real", y.real(), x[center], 12 * u * scale, t, TAPS);
			NEAR("hilbert.imag", y.imag(), im, tol * scale, t, TAPS);
			x.push_back(in);
		}
		event("samples", len);
	}
	// tones come out as turning pointers
	if (TAPS < 65)
		return;
	for (int c = 0; c < cases(4, 100); ++c) {
		LD f = rng.uni(0.05, 0.45), phase = rng.uni(0, 6), amp = std::abs(rng.loguni(0.1, 10));
		run(true, "Hilbert<%s,%d> tone f=%.4Lg", name<T>(), TAPS, f);
		DSP::Hilbert<C, TAPS> dut;
		for (int t = 0; t < 3 * TAPS; ++t) {
			auto at = [&](int k) { return 2 * pi() * std::fmod(f * k, 1.L) + phase; };
			C y = dut(T(amp * std::cos(at(t))));
			if (t <= TAPS)
				continue;
			LD w = at(t - 1 - HALF);
			NEAR("hilbert.tone", y.real(), amp * std::cos(w), 0.01L * amp, t);
			NEAR("hilbert.tone", y.imag(), amp * std::sin(w), 0.01L * amp, t);
		}
		event("tones");
	}
}

template <typename T>
static void all(Rng &rng)
{
	filter<T, 5>(rng);
	filter<T, 9>(rng);
	filter<T, 13>(rng);
	filter<T, 33>(rng);
	filter<T, 65>(rng);
	filter<T, 129>(rng);
	filter<T, 257>(rng);
}

void workload()
{
	Rng rng(25);
	all<float>(rng);
	all<double>(rng);
}
