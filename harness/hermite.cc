// C32: cubic Hermite splines
#include "mon.hh"
#include "complex.hh"
#include "spline.hh"

using namespace mon;

typedef std::complex<LD> CLD;

template <typename V> struct In
{
	static V make(LD re, LD) { return V(re); }
	static CLD see(V v) { return CLD(v, 0); }
};
template <typename V> struct In<DSP::Complex<V>>
{
	static DSP::Complex<V> make(LD re, LD im) { return DSP::Complex<V>(re, im); }
	static CLD see(DSP::Complex<V> v) { return CLD(v.real(), v.imag()); }
};

// one sided slopes at the ends, mean of both sides between
static CLD slope(const std::vector<LD> &x, const std::vector<CLD> &y, int i)
{
	int n = (int)x.size();
	auto secant = [&](int k) { return (y[k + 1] - y[k]) / (x[k + 1] - x[k]); };
	return i == 0 ? secant(0) : i == n - 1 ? secant(n - 2) : (secant(i - 1) + secant(i)) / 2.L;
}

static CLD hermite(const std::vector<LD> &x, const std::vector<CLD> &y, LD at, int k)
{
	LD h = x[k + 1] - x[k], t = (at - x[k]) / h;
	return
		(2 * t * t * t - 3 * t * t + 1) * y[k] + (t * t * t - 2 * t * t + t) * h * slope(x, y, k) +
		(3 * t * t - 2 * t * t * t) * y[k + 1] + (t * t * t - t * t) * h * slope(x, y, k + 1);
}

template <typename OTYPE, typename ITYPE>
static void all(Rng &rng, const char *type)
{
	typedef DSP::CubicHermiteSpline<OTYPE, ITYPE> S;
	const LD u = eps<ITYPE>();
	for (int c = 0; c < cases(400, 10000); ++c) {
		int n = c < 40 ? 3 + c / 8 : (int)rng.in(3, 60);
		bool uniform = c & 1;
		int how = c / 2 % 3;
		ITYPE x0 = how == 0 ? ITYPE(0) : ITYPE(rng.uni(-3, 3)), dx = how < 2 ? ITYPE(1) : ITYPE(std::abs(rng.loguni(0.05, 20)));
		// against the axis as well
		if (how == 2 && c % 4 == 1)
			dx = -dx;
		if (c % 50 == 49)
			n = (int)rng.in(1000, 3000);
		LD level = std::abs(rng.loguni(1e-15, 1e15));
		run(true, "CubicHermiteSpline<%s> n=%d %s x0=%g dx=%g case %d", type, n, uniform ? "uniform" : "given knots", (double)x0, (double)dx, c);
		Buf<OTYPE> Y(n);
		Buf<ITYPE> X(n);
		std::vector<LD> x(n);
		std::vector<CLD> y(n);
		LD top = 0, steep = 0, far = 0, least = 1e9L;
		for (int i = 0; i < n; ++i) {
			Y[i] = In<OTYPE>::make(level * rng.wave(), level * rng.wave());
			// level now and then
			if (i && c % 5 == 3 && rng.one_in(3))
				Y[i] = Y[i - 1];
			y[i] = In<OTYPE>::see(Y[i]);
			top = std::max(top, std::max(std::abs(y[i].real()), std::abs(y[i].imag())));
			X[i] = uniform ? 0 : i ? ITYPE(X[i - 1] + rng.uni(0.1, 2)) : x0;
			x[i] = uniform ? (LD)x0 + i * (LD)dx : (LD)X[i];
			far = std::max(far, std::abs(x[i]));
			if (i) {
				steep = std::max(steep, 2 * top / std::abs(x[i] - x[i - 1]));
				least = std::min(least, std::abs(x[i] - x[i - 1]));
			}
		}
		LD span = (x[n - 1] - x[0]) / (n - 1);
		for (int t = 0; t < 3 * n + 20; ++t) {
			bool away = t >= 3 * n;
			LD want_at = t < n ? x[t] : t < 2 * n ? x[t - n] + least * 1e-3L * rng.sym() :
				x[0] + (x[n - 1] - x[0]) * (away ? t % 3 ? rng.uni(-2, 3) : rng.uni(-20, 20) : rng.uni(-0.02, 1.02)) + least * 0.5L * rng.sym();
			ITYPE at = uniform || t >= n ? ITYPE(want_at) : X[t];
			int k = 0;
			while (k < n - 2 && (span < 0 ? x[k + 1] > (LD)at : x[k + 1] < (LD)at))
				++k;
			CLD want = hermite(x, y, at, k);
			LD p = ((LD)at - x[k]) / (x[k + 1] - x[k]), out = std::max((LD)1, std::max(std::abs(p), std::abs(1 - p)));
			LD rise = 1 + steep * std::abs(x[k + 1] - x[k]) / top;
			LD pos = u * (std::abs((LD)at) + std::abs((LD)x0) + far) / std::abs(x[k + 1] - x[k]) + u * std::abs(((LD)at - x[0]) / span);
			LD loss = u * 2 * far / least;
			LD tol = top * out * out * out * rise * (16 * u + 6 * pos + loss);
			OTYPE v;
			if (!uniform)
				v = S::eval(X.data(), Y.data(), at, n);
			else if (how == 0)
				v = S::eval(Y.data(), at, n);
			else if (how == 1)
				v = S::eval(Y.data(), at, n, x0);
			else
				v = S::eval(Y.data(), at, n, x0, dx);
			CLD got = In<OTYPE>::see(v);
			if (uniform) {
				NEAR("hermite.uniform", got.real(), want.real(), tol, t, k);
				NEAR("hermite.uniform", got.imag(), want.imag(), tol, t, k);
			} else {
				NEAR("hermite.given", got.real(), want.real(), tol, t, k);
				NEAR("hermite.given", got.imag(), want.imag(), tol, t, k);
			}
			if (t < n)
				NEAR("hermite.knot", got.real(), y[t].real(), tol, t, k);
		}
		// by interval and position therein
		for (int t = 0; t < 20; ++t) {
			int k = (int)rng.in(0, n - 2);
			ITYPE p = ITYPE(t == 0 ? 0 : t == 1 ? 1 : rng.u01());
			LD at = x[k] + (LD)p * (x[k + 1] - x[k]);
			CLD want = hermite(x, y, at, k);
			OTYPE v = uniform ? S::eval(Y.data(), p, k, n) : S::eval(X.data(), Y.data(), p, k, n);
			CLD got = In<OTYPE>::see(v);
			LD tol = top * (1 + steep * std::abs(x[k + 1] - x[k]) / top) * (16 * u + 4 * u * far / least);
			NEAR("hermite.interval", got.real(), want.real(), tol, t, k);
			NEAR("hermite.interval", got.imag(), want.imag(), tol, t, k);
		}
		event(uniform ? "uniform splines" : "splines over given knots");
	}
}

void workload()
{
	Rng rng(32);
	all<float, float>(rng, "float");
	all<double, double>(rng, "double");
	all<DSP::Complex<float>, float>(rng, "complex<float>");
	all<DSP::Complex<double>, double>(rng, "complex<double>");
}
