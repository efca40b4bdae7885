// C19: window functions
#include "mon.hh"
#include "window.hh"
#include "coeffs.hh"

using namespace mon;

static LD bessel(LD x)
{
	LD sum = 1, val = 1;
	for (int n = 1; n < 400; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}

template <typename T>
struct Test
{
	static void sample(int n, int N, T a, T o, T k)
	{
		const LD u = eps<T>();
		LD M = N - 1, x = 2 * n / M - 1;
		int m = (int)((2ll * n) % (N - 1));
		NEAR("window.rect", DSP::Rect<T>()(n, N), 1, 0, n, N);
		NEAR("window.hann", DSP::Hann<T>()(n, N), (1 - cosq(n, N - 1)) / 2, 3 * u, n, N);
		NEAR("window.hamming", DSP::Hamming<T>()(n, N), 0.54L - 0.46L * cosq(n, N - 1), 3 * u, n, N);
		LD l = 2 * n == N - 1 ? 1 : std::sin(pi() * x) / (pi() * x);
		if (n == 0 || n == N - 1)
			l = 0;
		NEAR("window.lanczos", DSP::Lanczos<T>()(n, N), l, 4 * u, n, N);
		LD c1 = cosq(n, N - 1), c2 = cosq(m, N - 1);
		NEAR("window.blackman.exact", DSP::Blackman<T>()(n, N), (7938 - 9240 * c1 + 1430 * c2) / 18608, 4 * u, n, N);
		NEAR("window.blackman.alpha", DSP::Blackman<T>(a)(n, N), (1 - (LD)a) / 2 - c1 / 2 + (LD)a / 2 * c2, 4 * u, n, N);
		NEAR("window.blackman.any", DSP::Blackman<T>(a, o, k)(n, N), (LD)a - o * c1 + k * c2, 4 * u * (std::abs((LD)a) + std::abs((LD)o) + std::abs((LD)k)), n, N);
		LD g = (n - M / 2) / (o * M / 2), gauss = std::exp(-g * g / 2);
		NEAR("window.gauss", DSP::Gauss<T>(o)(n, N), gauss, u * (4 + 4 * g * g) * gauss + 1e-36L, n, N);
		LD y = 1 - x * x;
		LD kaiser = bessel(pi() * k * std::sqrt(y < 0 ? 0 : y)) / bessel(pi() * k);
		NEAR("window.kaiser", DSP::Kaiser<T>(k)(n, N), kaiser, 40 * u * kaiser + 4 * u / (1 + bessel(pi() * k) / 1000) , n, N);
	}
	static void all(Rng &rng)
	{
		for (int c = 0; c < cases(400, 20000); ++c) {
			int N = c < 40 ? c + 2 : c % 10 ? (int)std::abs(rng.loguni(2, 3000)) : (int)std::abs(rng.loguni(2, 1000000));
			T a = T(rng.uni(0.05, 0.4)), o = T(rng.uni(0.1, 1)), k = T(c % 7 == 0 ? rng.in(0, 3) : rng.uni(0, 3));
			// far from the usual
			if (c % 5 == 4) {
				a = T(rng.one_in(4) ? 0 : rng.uni(-1, 1));
				o = T(std::abs(rng.loguni(0.02, 50)));
				k = -k;
			}
			// the customary ones
			if (c % 5 == 3) {
				static const double A[] = { 0.16, 0.42, 0.5, 1, 0.25 }, O[] = { 0.5, 0.4, 0.3, 1, 0.25 }, K[] = { 2, 2.5, 0.5, 1, 3 };
				a = T(A[rng.in(0, 4)]);
				o = T(O[rng.in(0, 4)]);
				k = T(K[rng.in(0, 4)]);
			}
			run(N > 2, "windows<%s> N=%d a=%g o=%g kaiser=%g", name<T>(), N, (double)a, (double)o, (double)k);
			int some = N <= 40 ? N : 30;
			for (int i = 0; i < some; ++i) {
				int n = some == N ? i : i < 3 ? i : i < 6 ? N - 1 - (i - 3) : i < 8 ? N / 2 - (i - 6) : (int)rng.in(0, N - 1);
				sample(n, N, a, o, k);
			}
			NEAR("window.rect.outside", DSP::Rect<T>()(-1, N), 0, 0, N);
			NEAR("window.rect.outside", DSP::Rect<T>()(N, N), 0, 0, N);
			int far = (int)std::abs(rng.loguni(1, 1e9));
			NEAR("window.rect.outside", DSP::Rect<T>()(-far, N), 0, 0, -far, N);
			NEAR("window.rect.outside", DSP::Rect<T>()(N - 1 + far, N), 0, 0, far, N);
			// symmetric about the center
			int n = (int)rng.in(0, N - 1);
			const LD u = eps<T>();
			NEAR("window.symmetry", DSP::Hann<T>()(n, N), DSP::Hann<T>()(N - 1 - n, N), 6 * u, n, N);
			NEAR("window.symmetry", DSP::Lanczos<T>()(n, N), DSP::Lanczos<T>()(N - 1 - n, N), 8 * u, n, N);
			NEAR("window.symmetry", DSP::Kaiser<T>(k)(n, N), DSP::Kaiser<T>(k)(N - 1 - n, N), 80 * u, n, N);
			event("windows", 10);
		}
		// tabulated at once, as filters do
		tables<65>(rng);
		tables<64>(rng);
		tables<2>(rng);
		tables<3>(rng);
	}
	template <int N>
	static void tables(Rng &rng)
	{
		const LD u = eps<T>();
		for (int c = 0; c < cases(10, 200); ++c) {
			T k = T(rng.uni(0, 3));
			run(true, "window table<%s,%d> kaiser=%g", name<T>(), N, (double)k);
			DSP::Kaiser<T> kaiser(k);
			DSP::Hann<T> hann;
			DSP::Coeffs<N, T> a(&kaiser), b(&hann);
			for (int n = 0; n < N; ++n) {
				LD x = 2 * n / (LD)(N - 1) - 1, y = 1 - x * x;
				LD want = bessel(pi() * k * std::sqrt(y < 0 ? 0 : y)) / bessel(pi() * k);
				NEAR("window.table.kaiser", a(n), want, 40 * u, n, N);
				NEAR("window.table.hann", b(n), (1 - cosq(n, N - 1)) / 2, 3 * u, n, N);
			}
		}
	}
};

void workload()
{
	Rng rng(19);
	Test<float>::all(rng);
	Test<double>::all(rng);
}
