// C06: fixed-point atan2
#include "mon.hh"
#include "cordic.hh"

using namespace mon;

template <typename T>
static void pair(int y, int x)
{
	if (!x && !y)
		return;
	const int turn = 1 << (8 * sizeof(T));
	LD want = std::atan2((LD)y, (LD)x) / (2 * pi()) * turn, r = std::hypot((LD)x, (LD)y);
	int got = DSP::CORDIC<T>::atan2(T(y), T(x));
	LD err = got - want;
	err -= turn * std::nearbyint(err / turn);
	// one LSB and rounding for long vectors, less resolution for short ones
	LD tol = sizeof(T) == 1 ? 1.5L + 36 / r : 2.1L + 32000 / r;
	NEAR("cordic.angle", err, 0, tol, y, x);
	LE("cordic.range", got, turn / 2 - 1, y, x);
	GE("cordic.range", got, -turn / 2, y, x);
}

template <typename T>
static void circle()
{
	const int N = 1 << (8 * sizeof(T));
	label("CORDIC full scale circle of %d", N);
	for (int n = -N / 2; n < N / 2; ++n) {
		int x = (int)std::nearbyint((N / 2 - 1) * cosq(n, N)), y = (int)std::nearbyint((N / 2 - 1) * sinq(n, N));
		int err = DSP::CORDIC<T>::atan2(T(y), T(x)) - n;
		if (err > N / 2)
			err -= N;
		if (err < -N / 2)
			err += N;
		LE("cordic.lsb", std::abs(err), 1, n);
		tick(mix(n) + N);
	}
}

void workload()
{
	Rng rng(6);
	for (int y = -128; y < 128; ++y)
		for (int x = -128; x < 128; ++x) {
			label("CORDIC 8 bit y=%d x=%d", y, x);
			pair<signed char>(y, x);
			pair<char>(y, x);
			tick(mix(y * 1000 + x));
		}
	event("8 bit pairs", 65535);
	circle<signed char>();
	circle<short>();
	for (int i = 0; i < cases(400000, 60000000); ++i) {
		int x, y;
		switch (i % 5) {
		case 0: x = (int)rng.in(-32768, 32767); y = (int)rng.in(-32768, 32767); break;
		case 1: { LD a = pi() * rng.sym(), r = 32767 * std::sqrt((LD)rng.u01()); x = (int)std::nearbyint(r * std::cos(a)); y = (int)std::nearbyint(r * std::sin(a)); break; }
		case 2: x = (int)rng.in(-300, 300); y = (int)rng.in(-300, 300); break;
		case 3: x = (int)rng.in(-4, 4); y = (int)rng.in(-32768, 32767); if (rng.one_in(2)) std::swap(x, y); break;
		default: x = rng.one_in(2) ? 32767 : -32768; y = (int)rng.in(-32768, 32767); if (rng.one_in(2)) std::swap(x, y);
		}
		if (i % 32 == 0)
			label("CORDIC 16 bit y=%d x=%d", y, x);
		pair<short>(y, x);
		tick(mix(y * 100000ll + x));
	}
}
