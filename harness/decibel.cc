// C07: powers of ten and decibels
#include "mon.hh"
#include "exp.hh"
#include "decibel.hh"

using namespace mon;

template <typename T>
static void all(Rng &rng)
{
	const double lim = sizeof(T) == 4 ? 37 : 300;
	const int top = sizeof(T) == 4 ? 120 : 1000;
	for (int i = 0; i < cases(100000, 5000000); ++i) {
		T x = T(i % 3 == 0 ? rng.uni(-lim, lim) : i % 3 == 1 ? rng.sym() : rng.loguni(1e-6, lim));
		if (i % 100 == 0)
			x = T((int)x);
		if (i % 32 == 0)
			label("exp10<%s>(%.17g)", name<T>(), (double)x);
		LD want = std::pow(10.L, (LD)x);
		// reordered arithmetic loses accuracy with the size of the exponent
		LD rel = eps<T>() * (6 + 3.5L * std::abs((LD)x));
		NEAR("exp10.value", DSP::exp10(x), want, rel * want);
		tick(bits((double)x) + sizeof(T));
		T dB = T(10 * x);
		LD power = std::pow(10.L, (LD)dB / 10);
		NEAR("idecibel.value", DSP::idecibel(dB), power, eps<T>() * (6 + 6 * std::abs((LD)x)) * power);
	}
	for (int n = -top; n <= top; ++n)
		for (int i = 0; i < cases(3, 40); ++i) {
			T x = T(rng.loguni(0.25, 4));
			label("ldexp<%s>(%.17g, %d)", name<T>(), (double)x, n);
			NEAR("ldexp.value", DSP::ldexp(x, n), std::ldexp((LD)x, n), 0, n);
			if (i == 0)
				NEAR("ldexp.power", DSP::ldexp(T(1), n), std::ldexp(1.L, n), 0, n);
			tick(bits((double)x) + n);
			// any sign and magnitude, as long as the outcome is in range
			const int reach = sizeof(T) == 4 ? 125 : 1020;
			int e = (int)rng.in(-reach, reach);
			if (i == 1)
				x = 0;
			else if (std::abs(e + n) <= reach)
				x = T(std::ldexp(rng.sym() < 0 ? rng.uni(-2, -1) : rng.uni(1, 2), e));
			else
				x = -x;
			label("ldexp<%s>(%.17g, %d)", name<T>(), (double)x, n);
			NEAR("ldexp.any", DSP::ldexp(x, n), std::ldexp((LD)x, n), 0, n);
		}
	for (int n = 0; n <= (int)lim; ++n) {
		label("exp10<%s>(%d)", name<T>(), n);
		LD want = std::pow(10.L, n), rel = eps<T>() * (6 + 3.5L * n);
		NEAR("exp10.integer", DSP::exp10(T(n)), want, rel * want, n);
		NEAR("exp10.integer", DSP::exp10(T(-n)), 1 / want, rel / want, n);
	}
	label("exp10<%s>(0)", name<T>());
	NEAR("exp10.zero", DSP::exp10(T(0)), 1, 0);
	NEAR("decibel.one", DSP::decibel(T(1)), 0, 0);
	for (int i = 0; i < cases(100000, 5000000); ++i) {
		T v = T(std::abs(i & 1 ? rng.loguni(sizeof(T) == 4 ? 1e-37 : 1e-300, sizeof(T) == 4 ? 1e37 : 1e300) : rng.loguni(1e-6, 1e6)));
		if (i % 32 == 0)
			label("decibel<%s>(%.17g)", name<T>(), (double)v);
		LD want = 10 * std::log10((LD)v);
		// ten square roots bring the argument next to one: absolute accuracy, and a series cut after seven terms
		LD root = std::pow((LD)v, 1.L / 1024), t = std::abs((root - 1) / (root + 1));
		LD tol = 8894.35L * (3 * eps<T>() + 1.8L * std::pow(t, 15) / 15);
		NEAR("decibel.value", DSP::decibel(v), want, tol);
		tick(bits((double)v) * 3 + sizeof(T));
		if (std::abs(want) < 10 * lim - 20) {
			T dB = DSP::decibel(v);
			LD rel = std::log(10.L) / 10 * tol + eps<T>() * (6 + std::abs(want));
			NEAR("decibel.roundtrip", DSP::idecibel(dB), v, rel * v);
		}
	}
}

void workload()
{
	Rng rng(7);
	all<float>(rng);
	all<double>(rng);
}
