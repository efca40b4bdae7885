// C04: sine and cosine of fractions of a turn
#include "mon.hh"
#include "unit_circle.hh"

using namespace mon;

template <typename T>
static void point(int n, int N)
{
	label("UnitCircle<%s> n=%d N=%d", name<T>(), n, N);
	typedef DSP::UnitCircle<T> U;
	// reduced here so that the reference stays exact for large arguments
	LD c = cosq(n, N), s = sinq(n, N);
	T gc = U::cos(n, N), gs = U::sin(n, N);
	NEAR("circle.cos", gc, c, 3 * eps<T>(), n, N);
	NEAR("circle.sin", gs, s, 3 * eps<T>(), n, N);
	// also relative to the value, next to the zeros
	NEAR("circle.cos.relative", gc, c, 5 * eps<T>() * std::abs(c), n, N);
	NEAR("circle.sin.relative", gs, s, 5 * eps<T>() * std::abs(s), n, N);
	NEAR("circle.rad", U::rad(n, N), 2 * pi() * n / N, 5 * eps<T>() * std::abs(2 * pi() * n / N), n, N);
	if ((int64_t)4 * n % N == 0) {
		int q = (int)((((int64_t)4 * n / N) % 4 + 4) % 4);
		static const int C[] = { 1, 0, -1, 0 }, S[] = { 0, 1, 0, -1 };
		NEAR("circle.quarter.cos", gc, C[q], 0, n, N);
		NEAR("circle.quarter.sin", gs, S[q], 0, n, N);
		event("exact quarter turns");
	}
}

static void both(int n, int N)
{
	tick(mix((uint64_t)(uint32_t)n << 32 | (uint32_t)N), n != 0);
	point<float>(n, N);
	point<double>(n, N);
}

// eighths are where the implementation has to change its formula
static void around(Rng &rng, int N)
{
	for (int e = -8; e <= 8; ++e)
		for (int d = -3; d <= 3; ++d) {
			int64_t n = (int64_t)e * N / 8 + d;
			if (n >= -N && n <= N)
				both((int)n, N);
		}
	for (int i = 0; i < cases(8, 60); ++i)
		both((int)rng.in(-N, N), N);
	event("circle sizes");
}

void workload()
{
	Rng rng(4);
	const int MAX = 268435455;
	for (int N = 1; N <= cases(64, 1000); ++N)
		for (int n = -N; n <= N; ++n)
			both(n, N);
	for (int i = 0; i < cases(1500, 60000); ++i) {
		double lo = rng.one_in(3) ? 1 : 5000;
		around(rng, (int)std::abs(rng.loguni(lo, MAX)));
	}
	for (int p = 1; p < 28; ++p)
		for (int d = -2; d <= 2; ++d)
			if ((1 << p) + d > 0)
				around(rng, (1 << p) + d);
	static const int popular[] = { 8000, 11025, 16000, 22050, 32000, 44100, 48000, 88200, 96000, 192000, 1000000, 5001, 10007, 65537, 46341, 16777215, 16777217, 134217727, 134217729, MAX, MAX - 1, MAX - 3, MAX - 7 };
	for (int N : popular)
		around(rng, N);
}
