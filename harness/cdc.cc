// C26: down conversion by a quarter of the rate
#include "mon.hh"
#include "complex.hh"
#include "const.hh"
#include "cdc.hh"

using namespace mon;

typedef std::complex<LD> CLD;

static LD bessel(LD x)
{
	LD sum = 1, val = 1;
	for (int n = 1; n < 200; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}

static LD kaiser(LD a, int n, int N)
{
	LD x = 2 * n / (LD)(N - 1) - 1, y = 1 - x * x;
	return bessel(pi() * a * std::sqrt(y < 0 ? 0 : y)) / bessel(pi() * a);
}

// x[k] shifted down by a quarter of the rate, rotated by a quarter turn
static CLD shifted(LD x, int k)
{
	static const CLD J[4] = { CLD(0, 1), CLD(1, 0), CLD(0, -1), CLD(-1, 0) };
	return x * J[((k % 4) + 4) % 4];
}

template <typename T, int TAPS>
static void filter(Rng &rng)
{
	typedef DSP::Complex<T> C;
	const LD u = eps<T>();
	const int HALF = (TAPS - 1) / 2, L = (TAPS - 1) / 4;
	for (int c = 0; c < cases(12, 300); ++c) {
		T a = c % 3 == 0 ? T(2) : c % 4 == 2 ? T(rng.in(0, 3)) : T(rng.uni(0, 3));
		if (c == 4)
			a = 0;
		LD scale = std::abs(rng.loguni(1e-15, 1e15));
		int len = 2 * TAPS + 20, pulse = (int)rng.in(0, 7);
		run(true, "CDC<%s,%d> a=%g case %d", name<T>(), TAPS, (double)a, c);
		Box<DSP::CDC<C, TAPS>> given((int)rng.in(0, 255), a), standard((int)rng.in(0, 255));
		DSP::CDC<C, TAPS> &dut = c % 3 == 0 && c & 1 ? *standard : *given;
		std::vector<LD> g(TAPS, 0);
		LD tol = 4 * u;
		for (int m = -HALF; m <= HALF; ++m) {
			LD h = m ? sinq(m, 4) / (pi() * m) : 0.5L;
			g[m + HALF] = kaiser(a, m + HALF, TAPS) * h;
			tol += (10 + TAPS / 8) * u * std::abs(g[m + HALF]);
		}
		std::vector<T> x(2 * len);
		for (int k = 0; k < 2 * len; ++k)
			x[k] = T(c % 4 == 1 ? (k == pulse) * scale : scale * rng.wave());
		for (int t = 0; t < len; ++t) {
			C y = dut(x[2 * t], x[2 * t + 1]);
			CLD want = 0;
			int center = 2 * (t - L) + 1;
			for (int m = -HALF; m <= HALF; ++m)
				if (center - m >= 0 && center - m < 2 * len)
					want += g[m + HALF] * shifted(x[center - m], center - m);
			NEAR("cdc.real", y.real(), want.real(), tol * scale, t, TAPS);
			NEAR("cdc.imag", y.imag(), want.imag(), tol * scale, t, TAPS);
		}
		event("outputs", len);
	}
	if (TAPS < 65)
		return;
	// tones around the quarter of the rate come out around zero
	for (int c = 0; c < cases(6, 100); ++c) {
		LD f = rng.uni(-0.2, 0.2), phase = rng.uni(0, 6), amp = std::abs(rng.loguni(0.1, 10));
		run(true, "CDC<%s,%d> tone f=1/4%+.4Lg", name<T>(), TAPS, f);
		DSP::CDC<C, TAPS> dut;
		for (int t = 0; t < 2 * TAPS; ++t) {
			auto at = [&](int k) { return 2 * pi() * std::fmod((0.25L + f) * k, 1.L) + phase; };
			C y = dut(T(amp * std::cos(at(2 * t))), T(amp * std::cos(at(2 * t + 1))));
			if (t <= TAPS / 2)
				continue;
			int k = 2 * (t - L) + 1;
			LD w = at(k) - pi() / 2 * (k % 4) + pi() / 2;
			NEAR("cdc.tone", y.real(), amp / 2 * std::cos(w), 0.01L * amp, t);
			NEAR("cdc.tone", y.imag(), amp / 2 * std::sin(w), 0.01L * amp, t);
		}
		event("tones");
	}
}

template <typename T>
static void all(Rng &rng)
{
	filter<T, 5>(rng);
	filter<T, 9>(rng);
	filter<T, 13>(rng);
	filter<T, 33>(rng);
	filter<T, 65>(rng);
	filter<T, 129>(rng);
}

void workload()
{
	Rng rng(26);
	all<float>(rng);
	all<double>(rng);
}
