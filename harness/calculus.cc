// C30: integrator and differentiator
#include "mon.hh"
#include "complex.hh"
#include "calculus.hh"

using namespace mon;

template <typename T>
static void reals(Rng &rng)
{
	const LD u = eps<T>();
	for (int c = 0; c < cases(300, 6000); ++c) {
		bool custom = c & 1;
		T start = custom ? T(rng.loguni(1e-3, 1e3)) : T(0);
		LD scale = std::abs(rng.loguni(1e-15, 1e15));
		run(true, "calculus<%s> start=%g scale=%.4Lg", name<T>(), (double)start, scale);
		Box<DSP::Integrator<T>> sum((int)rng.in(0, 255), start);
		Box<DSP::Differentiator<T>> diff((int)rng.in(0, 255), start);
		Box<DSP::Integrator<T>> plain((int)rng.in(0, 255));
		Box<DSP::Differentiator<T>> dplain((int)rng.in(0, 255));
		LD total = start, mag = std::abs(total), zero = 0, zmag = 0;
		T last = start, zlast = 0;
		for (int t = 0; t < 200; ++t) {
			T x = T(scale * rng.wave());
			total += x;
			zero += x;
			mag += std::abs((LD)x);
			zmag += std::abs((LD)x);
			NEAR("integrator.output", (*sum)(x), total, u * mag * (2 + t), t);
			NEAR("integrator.output", (*plain)(x), zero, u * zmag * (2 + t), t);
			NEAR("differentiator.output", (*diff)(x), (LD)x - last, u * (std::abs((LD)x) + std::abs((LD)last)), t);
			NEAR("differentiator.output", (*dplain)(x), (LD)x - zlast, u * (std::abs((LD)x) + std::abs((LD)zlast)), t);
			last = zlast = x;
		}
		event("histories", 4);
	}
}

// exact on numbers without rounding: one undoes the other
template <typename T>
static void inverse(Rng &rng, const char *type)
{
	for (int c = 0; c < cases(200, 6000); ++c) {
		T start = c & 1 ? T((int)rng.in(-1000, 1000)) : T(0);
		run(true, "calculus<%s> inverse start=%d case %d", type, (int)(c & 1), c);
		Box<DSP::Integrator<T>> sum((int)rng.in(0, 255), start);
		Box<DSP::Differentiator<T>> diff((int)rng.in(0, 255), start);
		Box<DSP::Integrator<T>> sum2((int)rng.in(0, 255), start);
		Box<DSP::Differentiator<T>> diff2((int)rng.in(0, 255), start);
		T before = T(0);
		for (int t = 0; t < 200; ++t) {
			T x = rng.one_in(8) ? before : T((int)rng.in(-1000, 1000));
			before = x;
			OK("calculus.difference-of-sum", (*diff)((*sum)(x)) == x, t);
			OK("calculus.sum-of-difference", (*sum2)((*diff2)(x)) == x, t);
		}
		event("round trips", 2);
	}
}

static void complexes(Rng &rng)
{
	typedef DSP::Complex<float> C;
	for (int c = 0; c < cases(100, 3000); ++c) {
		run(true, "calculus<complex<float>> case %d", c);
		DSP::Integrator<C> sum(C(3, -4));
		DSP::Differentiator<C> diff(C(3, -4));
		int re = 3, im = -4, lr = 3, li = -4;
		for (int t = 0; t < 100; ++t) {
			int a = (int)rng.in(-1000, 1000), b = (int)rng.in(-1000, 1000);
			re += a;
			im += b;
			C s = sum(C(a, b)), d = diff(C(a, b));
			OK("integrator.complex", s.real() == re && s.imag() == im, t);
			OK("differentiator.complex", d.real() == a - lr && d.imag() == b - li, t);
			lr = a;
			li = b;
		}
	}
}


void workload()
{
	Rng rng(30);
	reals<float>(rng);
	reals<double>(rng);
	inverse<int>(rng, "int");
	inverse<float>(rng, "float");
	inverse<double>(rng, "double");
	inverse<DSP::Complex<float>>(rng, "complex<float>");
	complexes(rng);
}
