// C41: elementary helpers and constants
#include "mon.hh"
#include "complex.hh"
#include "utils.hh"

using namespace mon;

template <typename T>
static void all(Rng &rng)
{
	const LD u = eps<T>();
	run(true, "Const<%s>", name<T>());
	typedef DSP::Const<T> K;
	NEAR("const.pi", K::EighthPi(), pi() / 8, u * 0.2L);
	NEAR("const.pi", K::FourthPi(), pi() / 4, u * 0.4L);
	NEAR("const.pi", K::HalfPi(), pi() / 2, u * 0.6L);
	NEAR("const.pi", K::Pi(), pi(), u * 1.1L);
	NEAR("const.pi", K::TwoPi(), 2 * pi(), u * 2.2L);
	NEAR("const.pi", K::FourPi(), 4 * pi(), u * 4.4L);
	NEAR("const.sqrt", K::SqrtPi(), std::sqrt(pi()), u * 0.6L);
	NEAR("const.sqrt", K::SqrtTwoPi(), std::sqrt(2 * pi()), u * 1.1L);
	NEAR("const.sqrt", K::InvSqrtTwo(), std::sqrt(0.5L), u * 0.4L);
	for (int c = 0; c < cases(20000, 1000000); ++c) {
		T a = T(rng.loguni(1e-6, 1e6)), b = T(rng.loguni(1e-6, 1e6)), x = T(rng.loguni(1e-4, 1e4)), t = T(rng.uni(-0.5, 1.5));
		if (c % 16 == 0)
			x = T(rng.in(-80, 80)) / 2;
		if (c % 16 == 1)
			t = T(rng.in(0, 2)) / 2;
		if (c % 32 == 2)
			a = x;
		if (c % 32 == 3)
			x = b;
		Hash h;
		h << a << b << x << t;
		label("helpers<%s> a=%.9g b=%.9g x=%.9g t=%.9g", name<T>(), (double)a, (double)b, (double)x, (double)t);
		tick(h.h);
		EQ("signum", DSP::signum(x), x > 0 ? 1 : x < 0 ? -1 : 0);
		LD lo = std::min(a, b), hi = std::max(a, b), want = x < lo ? lo : x > hi ? hi : (LD)x;
		NEAR("clamp", DSP::clamp(x, T(lo), T(hi)), want, 0);
		NEAR("clamp.one", DSP::clamp(x, a, a), a, 0);
		LD l = (1 - (LD)t) * a + (LD)t * b;
		NEAR("lerp", DSP::lerp(a, b, t), l, 4 * u * (std::abs((LD)a) + std::abs((LD)b)));
		DSP::Complex<T> z = DSP::lerp(DSP::Complex<T>(a, b), DSP::Complex<T>(b, x), t);
		NEAR("lerp.complex", z.real(), l, 4 * u * (std::abs((LD)a) + std::abs((LD)b)));
		NEAR("lerp.complex", z.imag(), (1 - (LD)t) * b + (LD)t * x, 4 * u * (std::abs((LD)b) + std::abs((LD)x)));
		T s = T(std::fmod((double)x, 1000));
		LD sinc = s == 0 ? 1 : std::sin(pi() * s) / (pi() * s);
		NEAR("sinc", DSP::sinc(s), sinc, 5 * u);
		NEAR("sinc.even", DSP::sinc(T(-s)), DSP::sinc(s), 2 * u);
		NEAR("delta", DSP::delta(x), x == 0, 0);
		T m = T(rng.sym()), d = T(std::abs(rng.loguni(0.1, 10))), v = T(m + d * rng.uni(-12, 12));
		// the standard one
		if (c % 16 == 5)
			d = 1, v = T(m + rng.uni(-12, 12));
		if (c % 16 == 6)
			d = 1, m = 0, v = T(rng.uni(-12, 12));
		if (c % 16 == 7)
			v = m;
		LD e = ((LD)v - m) / d, pdf = std::exp(-e * e / 2) / (std::sqrt(2 * pi()) * d);
		NEAR("normal", DSP::normal_pdf(v, m, d), pdf, pdf * u * (8 + 4 * e * e + 4 * std::abs(e) * (std::abs((LD)v) + std::abs((LD)m)) / d));
		// far from one: nothing on the way may leave the range
		LD far = std::abs(rng.loguni(1e-30, 1e30));
		T fa = T(far * rng.sym()), fb = T(far * rng.sym()), fd = T(far);
		LD fe = (LD)fa / fd, fpdf = std::exp(-fe * fe / 2) / (std::sqrt(2 * pi()) * fd);
		NEAR("normal.far", DSP::normal_pdf(fa, T(0), fd), fpdf, 16 * u * fpdf);
		NEAR("lerp.far", DSP::lerp(fa, fb, t), (1 - (LD)t) * fa + (LD)t * fb, 4 * u * (std::abs((LD)fa) + std::abs((LD)fb)));
		NEAR("clamp.far", DSP::clamp(fa, std::min(fb, fd), fd), std::min(std::max(fa, std::min(fb, fd)), fd), 0);
		LD fs = fa == 0 ? 1 : std::abs((LD)fa) < 1 ? std::sin(pi() * fa) / (pi() * fa) : 0;
		NEAR("sinc.far", DSP::sinc(fa), fs, std::abs((LD)fa) < 1 ? 5 * u : 1 / (3 * std::abs((LD)fa)));
		event("helpers", 11);
	}
	for (int i = -50; i <= 50; ++i) {
		run(true, "integers<%s> %d", name<T>(), i);
		NEAR("sinc.integer", DSP::sinc(T(i)), i == 0, i ? 2 * u : 0, i);
		NEAR("delta", DSP::delta(T(i)), i == 0, 0, i);
		EQ("signum", DSP::signum(i), (i > 0) - (i < 0), i);
		EQ("clamp.int", DSP::clamp(i, -7, 20), i < -7 ? -7 : i > 20 ? 20 : i, i);
		EQ("delta.int", DSP::delta(i), i == 0, i);
		if (i >= 0) {
			EQ("signum.unsigned", DSP::signum((unsigned)i), i > 0, i);
			EQ("clamp.unsigned", DSP::clamp((unsigned)i, 7u, 20u), i < 7 ? 7 : i > 20 ? 20 : i, i);
		}
	}
	NEAR("delta", DSP::delta(T(1e-30)), 0, 0);
	NEAR("delta", DSP::delta(T(-1e-30)), 0, 0);
	EQ("signum", DSP::signum(T(1e-30)), 1);
	EQ("signum", DSP::signum(T(-1e-30)), -1);
	NEAR("sinc", DSP::sinc(T(1e-10)), 1, 2 * u);
}

void workload()
{
	Rng rng(41);
	all<float>(rng);
	all<double>(rng);
}
