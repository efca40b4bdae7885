// C05: atan and atan2
#include "mon.hh"
#include "unit_circle.hh"
#include "atan2.hh"

using namespace mon;

template <typename T>
static LD tiny_value() { return 4 * (LD)std::numeric_limits<T>::min(); }

template <typename T>
static void one(T x)
{
	LD want = std::atan((LD)x);
	T got = DSP::atan(x);
	NEAR("atan.value", got, want, 6 * eps<T>() * std::abs(want) + tiny_value<T>());
	NEAR("atan.odd", DSP::atan(T(-x)), -(LD)got, 0);
}

template <typename T>
static void two(T y, T x)
{
	if (x == 0 && y == 0) {
		NEAR("atan2.origin", DSP::atan2(y, x), 0, 0);
		return;
	}
	LD want = std::atan2((LD)y, (LD)x);
	T got = DSP::atan2(y, x);
	// the quotient may leave the range of the type: absolute then
	LD tol = 6 * eps<T>() * std::abs(want) + tiny_value<T>();
	if (y == 0 && x < 0) {
		// on the cut both ends are right
		NEAR("atan2.cut", std::abs((LD)got), pi(), 2 * eps<T>());
		return;
	}
	NEAR("atan2.value", got, want, tol);
	LE("atan2.range", std::abs((LD)got), pi() * (1 + eps<T>()));
	if (y > 0)
		GE("atan2.upper", got, 0);
	if (y < 0)
		LE("atan2.lower", got, 0);
	if (y != 0)
		NEAR("atan2.mirror", DSP::atan2(T(-y), x), -(LD)got, 2 * eps<T>() * std::abs((LD)got));
}

template <typename T>
static void all(Rng &rng)
{
	const double hi = sizeof(T) == 4 ? 1e37 : 1e300, lo = sizeof(T) == 4 ? 1e-36 : 1e-300;
	for (int i = 0; i < cases(60000, 3000000); ++i) {
		T x = T(rng.one_in(2) ? rng.loguni(lo, hi) : rng.loguni(1e-3, 1e3));
		if (i % 64 == 0)
			label("atan<%s>(%.17g)", name<T>(), (double)x);
		one(x);
		tick(bits((double)x) + sizeof(T));
	}
	// where the formula changes
	const LD knots[] = { 0.66L, 2.41421356237309504880L, 1, 0.41421356237309504880L, 0.5L, 2 };
	for (LD k : knots) {
		T a = T(k), b = T(k);
		for (int i = 0; i < 200; ++i) {
			label("atan<%s>(%.17g) next to a knot", name<T>(), (double)a);
			one(a);
			one(b);
			one(T(1) / a);
			two(a, T(1));
			two(T(-3), b * T(-3));
			a = std::nextafter(a, T(100));
			b = std::nextafter(b, T(0));
		}
	}
	label("atan<%s>(0)", name<T>());
	NEAR("atan.zero", DSP::atan(T(0)), 0, 0);
	for (int i = 0; i < cases(120000, 5000000); ++i) {
		T x, y;
		switch (i % 6) {
		case 0: x = T(rng.loguni(lo, hi)); y = T(rng.loguni(lo, hi)); break;
		case 1: x = T(rng.loguni(1e-3, 1e3)); y = T(rng.loguni(1e-3, 1e3)); break;
		case 2: { LD a = pi() * rng.sym(), r = std::abs(rng.loguni(1e-6, 1e6)); x = T(r * std::cos(a)); y = T(r * std::sin(a)); break; }
		case 3: x = T(rng.loguni(1e-3, 1e3)); y = x * T(1 + 8 * eps<T>() * rng.sym()) * (rng.one_in(2) ? 1 : -1); break;
		case 4: x = T(rng.in(-20, 20)); y = T(rng.in(-20, 20)); break;
		default: x = T(rng.loguni(1e-30, 1e-20)); y = T(rng.loguni(1e-10, 1e10)); if (rng.one_in(2)) std::swap(x, y);
		}
		if (i % 64 == 0)
			label("atan2<%s>(%.17g, %.17g)", name<T>(), (double)y, (double)x);
		two(y, x);
		tick(bits((double)x) * 31 + bits((double)y) + sizeof(T));
	}
	for (int s = 0; s < 200; ++s) {
		T v = T(std::abs(rng.loguni(lo, hi)));
		label("atan2<%s> on the axes %.17g", name<T>(), (double)v);
		NEAR("atan2.axis", DSP::atan2(T(0), v), 0, 0);
		NEAR("atan2.axis", std::abs((LD)DSP::atan2(T(0), T(-v))), pi(), 2 * eps<T>());
		NEAR("atan2.axis", DSP::atan2(v, T(0)), pi() / 2, eps<T>());
		NEAR("atan2.axis", DSP::atan2(T(-v), T(0)), -pi() / 2, eps<T>());
#ifndef __FAST_MATH__
		// signed zeros tell the side of the cut
		NEAR("atan2.side", DSP::atan2(T(0), T(-v)), pi(), 2 * eps<T>());
		NEAR("atan2.side", DSP::atan2(T(-0.), T(-v)), -pi(), 2 * eps<T>());
#endif
	}
	label("atan2<%s> at the origin", name<T>());
	NEAR("atan2.origin", DSP::atan2(T(0), T(0)), 0, 0);
	NEAR("atan2.origin", DSP::atan2(T(-0.), T(0)), 0, 0);
	// from sine and cosine back to the angle
	for (int i = 0; i < cases(20000, 1000000); ++i) {
		int N = (int)std::abs(rng.loguni(3, 1e8)), n = (int)rng.in(-(N - 1) / 2, (N - 1) / 2);
		label("atan2<%s> of the unit circle n=%d N=%d", name<T>(), n, N);
		NEAR("atan2.circle", DSP::atan2(DSP::UnitCircle<T>::sin(n, N), DSP::UnitCircle<T>::cos(n, N)), 2 * pi() * n / N, 10 * eps<T>(), n, N);
		tick(mix((uint64_t)n * N + sizeof(T)));
	}
}

void workload()
{
	Rng rng(5);
	all<float>(rng);
	all<double>(rng);
}
