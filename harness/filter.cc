// C20: finite impulse response designs
#include "mon.hh"
#include "complex.hh"
#include "window.hh"
#include "filter.hh"
#include "coeffs.hh"

using namespace mon;

// 2 f sinc(2 f x) with twox = 2 x
static LD low(LD f, int twox)
{
	return twox ? std::sin(pi() * f * twox) / (pi() * twox / 2) : 2 * f;
}
static LD low(int num, int den, int twox)
{
	return twox ? sinq((LD)twox * num, 2 * (LD)den) / (pi() * twox / 2) : 2 * (LD)num / den;
}

template <typename T>
struct Test
{
	static void all(Rng &rng)
	{
		const LD u = eps<T>();
		for (int c = 0; c < cases(1500, 60000); ++c) {
			int N = c < 60 ? c + 1 : (int)std::abs(rng.loguni(1, 2000));
			T f0 = T(rng.uni(0.001, c % 3 ? 0.25 : 0.499)), f1 = T(rng.uni((double)f0, 0.5));
			if (c % 9 == 0)
				f1 = T(0.5);
			// nothing, everything, half of it
			static const double F[] = { 0, 0.5, 0.25, 0.125 };
			if (c % 11 == 0)
				f0 = T(F[rng.in(0, 3)]);
			if (c % 22 == 0)
				f1 = f0;
			int den = (int)std::abs(rng.loguni(2, 1e6)), num = (int)rng.in(0, std::max(1, den / 2));
			if (c % 4 == 0) {
				static const int P[][2] = { { 1, 4 }, { 1, 2 }, { 1, 3 }, { 2000, 8000 }, { 3000, 44100 }, { 12000, 48000 }, { 1, 100 }, { 3, 8 }, { 0, 1 } };
				int i = (int)rng.in(0, 8);
				num = P[i][0];
				den = P[i][1];
			}
			run(N > 1, "filters<%s> N=%d f0=%g f1=%g %d/%d", name<T>(), N, (double)f0, (double)f1, num, den);
			int some = N <= 40 ? N : 24;
			for (int i = 0; i < some; ++i) {
				int n = some == N ? i : i < 2 ? i : i < 4 ? N - 1 - (i - 2) : i < 8 ? N / 2 + (i - 6) : (int)rng.in(0, N - 1);
				int twox = 2 * n - (N - 1);
				NEAR("filter.lowpass", DSP::LowPass<T>(f0)(n, N), low((LD)f0, twox), 6 * u * (LD)f0 + u * 2 * (LD)f0, n, N);
				NEAR("filter.lowpass2", DSP::LowPass2<T>(num, den)(n, N), low(num, den, twox), 6 * u * (LD)num / den + 3 * u / std::max(1, std::abs(twox)), n, N);
				LD one = twox ? sinq(twox, 4) / (pi() * twox / 2) : 1;
				NEAR("filter.highpass", DSP::HighPass<T>(f0)(n, N), one - low((LD)f0, twox), 8 * u, n, N);
				NEAR("filter.highpass2", DSP::HighPass2<T>(num, den)(n, N), one - low(num, den, twox), 8 * u, n, N);
				NEAR("filter.bandpass", DSP::BandPass<T>(f0, f1)(n, N), low((LD)f1, twox) - low((LD)f0, twox), 8 * u, n, N);
				LD h = N & 1 ? (twox / 2 & 1 ? 2 / (pi() * (twox / 2)) : 0) : 2 / (pi() * twox);
				NEAR("filter.hilbert", DSP::HilbertTransform<T>()(n, N), h, 4 * u * std::abs(h), n, N);
			}
			event("designs", 6);
		}
		coeffs<1>(rng);
		coeffs<2>(rng);
		coeffs<3>(rng);
		coeffs<16>(rng);
		coeffs<33>(rng);
		coeffs<101>(rng);
	}
	template <int TAPS>
	static void coeffs(Rng &rng)
	{
		const LD u = eps<T>();
		for (int c = 0; c < cases(30, 1000); ++c) {
			T f = T(rng.uni(0.05, 0.45));
			DSP::LowPass<T> lp(f);
			DSP::Hann<T> hann;
			DSP::Hamming<T> ham;
			run(TAPS > 1, "Coeffs<%d,%s> f=%g", TAPS, name<T>(), (double)f);
			Box<DSP::Coeffs<TAPS, T>> a((int)rng.in(0, 255), &lp);
			const T *p = *a;
			for (int n = 0; n < TAPS; ++n) {
				LD want = low((LD)f, 2 * n - (TAPS - 1));
				NEAR("coeffs.value", (*a)(n), want, 8 * u, n, TAPS);
				NEAR("coeffs.pointer", p[n], (*a)(n), 0, n, TAPS);
			}
			for (int n = 1; n < 5; ++n) {
				NEAR("coeffs.outside", (*a)(-n), 0, 0, n, TAPS);
				NEAR("coeffs.outside", (*a)(TAPS - 1 + n), 0, 0, n, TAPS);
			}
			if (TAPS < 2)
				continue;
			Box<DSP::Coeffs<TAPS, T>> b((int)rng.in(0, 255), &lp, &ham);
			Box<DSP::Coeffs<TAPS, T, true>> d((int)rng.in(0, 255), &lp, &ham), s((int)rng.in(0, 255), &lp);
			LD plain = 0, most = 0;
			for (int n = 0; n < TAPS; ++n) {
				plain += low((LD)f, 2 * n - (TAPS - 1));
				most += std::abs(low((LD)f, 2 * n - (TAPS - 1)));
			}
			LD fuzz = u * (8 + TAPS / 4.L) * (TAPS / 8.L + 1) * most / (plain * plain);
			if (std::abs(plain) > 0.02L)
				for (int n = 0; n < TAPS; ++n)
					NEAR("coeffs.normalized.one", (*s)(n), low((LD)f, 2 * n - (TAPS - 1)) / std::abs(plain), fuzz * 4 + 8 * u / std::abs(plain), n, TAPS);
			LD sum = 0, mag = 0;
			for (int n = 0; n < TAPS; ++n) {
				LD want = low((LD)f, 2 * n - (TAPS - 1)) * (0.54L - 0.46L * cosq(n, TAPS - 1));
				NEAR("coeffs.product", (*b)(n), want, 8 * u, n, TAPS);
				sum += want;
				mag += std::abs(want);
			}
			LD loss = u * (8 + TAPS / 4.L) * (TAPS / 8.L + 1) * mag / (sum * sum);
			if (std::abs(sum) > 0.02L) {
				LD total = 0;
				for (int n = 0; n < TAPS; ++n) {
					LD want = low((LD)f, 2 * n - (TAPS - 1)) * (0.54L - 0.46L * cosq(n, TAPS - 1)) / std::abs(sum);
					NEAR("coeffs.normalized", (*d)(n), want, loss * 4 + 8 * u / std::abs(sum), n, TAPS);
					total += (*d)(n);
				}
				NEAR("coeffs.sum", std::abs(total), 1, 4 * loss + u * TAPS, TAPS);
				T divisor = T(rng.one_in(3) ? rng.one_in(2) ? TAPS : rng.in(1, 9) : rng.one_in(2) ? std::abs(rng.loguni(1e-3, 1e3)) : rng.uni(0.5, 4));
				b->normalize(divisor);
				total = 0;
				for (int n = 0; n < TAPS; ++n) {
					NEAR("coeffs.divisor", (*b)(n) * (LD)divisor, (*d)(n), 8 * u * std::abs((LD)(*d)(n)) + loss, n, TAPS);
					total += (*b)(n);
				}
				NEAR("coeffs.divisor.sum", std::abs(total), 1 / (LD)divisor, (4 * loss + u * TAPS) / divisor, TAPS);
			}
			// negative sum keeps its sign
			T g = -f;
			DSP::LowPass<T> neg(g);
			struct Neg { DSP::LowPass<T> f; T operator () (int n, int N) const { return -f(n, N); } } minus = { lp };
			Box<DSP::Coeffs<TAPS, T, true>> e((int)rng.in(0, 255), &minus, &ham);
			if (std::abs(sum) > 0.02L)
				for (int n = 0; n < TAPS; ++n)
					NEAR("coeffs.negative", (*e)(n), -(LD)(*d)(n), 8 * u * std::abs((LD)(*d)(n)) + loss, n, TAPS);
			// exact sums, one included, normalized again and again
			struct Given { T v[TAPS]; T operator () (int n, int) const { return v[n]; } } given;
			int exact = 0;
			for (int n = 0; n < TAPS; ++n)
				exact += (int)(given.v[n] = T(rng.in(-3, 3)));
			int ask = (int)rng.in(1, 4) * (rng.one_in(2) ? 1 : -1);
			if (rng.one_in(2))
				ask = 1;
			given.v[0] += T(ask - exact);
			Box<DSP::Coeffs<TAPS, T>> again((int)rng.in(0, 255), &given);
			for (int i = 0; i < 3; ++i) {
				T divisor = T(1 << rng.in(0, 2));
				again->normalize(divisor);
				LD by = (LD)divisor * std::abs((LD)ask);
				for (int n = 0; n < TAPS; ++n)
					NEAR("coeffs.again", (*again)(n), (LD)given.v[n] / by, (8 + TAPS * 4) * u * (std::abs((LD)given.v[n]) + 1), n, i);
			}
			event("coefficient tables", 5);
		}
	}
};

void workload()
{
	Rng rng(20);
	Test<float>::all(rng);
	Test<double>::all(rng);
}
