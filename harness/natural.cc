// C31: natural cubic splines over equidistant knots
#include "mon.hh"
#include "complex.hh"
#include "spline.hh"

using namespace mon;

typedef std::complex<LD> CLD;

template <typename V> struct In
{
	static V make(LD re, LD) { return V(re); }
	static CLD see(V v) { return CLD(v, 0); }
};
template <typename V> struct In<DSP::Complex<V>>
{
	static DSP::Complex<V> make(LD re, LD im) { return DSP::Complex<V>(re, im); }
	static CLD see(DSP::Complex<V> v) { return CLD(v.real(), v.imag()); }
};

// second derivatives at the knots, unit spacing, zero at the ends
static std::vector<CLD> bend(const std::vector<CLD> &y)
{
	int n = (int)y.size();
	std::vector<CLD> m(n, 0), d(n, 0);
	std::vector<LD> p(n, 0);
	for (int i = 1; i < n - 1; ++i) {
		LD den = 4 - p[i - 1];
		p[i] = 1 / den;
		d[i] = (6.L * (y[i - 1] - 2.L * y[i] + y[i + 1]) - d[i - 1]) / den;
	}
	for (int i = n - 2; i > 0; --i)
		m[i] = d[i] - p[i] * m[i + 1];
	return m;
}

template <typename OTYPE, typename ITYPE, int KNOTS>
static void spline(Rng &rng, const char *type)
{
	const LD u = eps<ITYPE>();
	for (int c = 0; c < cases(16, 500); ++c) {
		int stride = c % 4 == 3 ? (int)rng.in(2, 5) : 1, how = c % 4;
		ITYPE x0 = how == 0 ? ITYPE(0) : ITYPE(rng.uni(-3, 3)), dx = how < 2 ? ITYPE(1) : ITYPE(rng.loguni(0.05, 20));
		LD level = std::abs(rng.loguni(1e-15, 1e15));
		run(KNOTS > 2, "UniformNaturalCubicSpline<%d,%s> x0=%g dx=%g stride=%d case %d", KNOTS, type, (double)x0, (double)dx, stride, c);
		Buf<OTYPE> Y((KNOTS - 1) * stride + 1);
		for (int i = 0; i < Y.size(); ++i)
			Y[i] = In<OTYPE>::make(1e6, -1e6);
		std::vector<CLD> y(KNOTS);
		LD slope = rng.sym(), top = 0;
		bool line = c % 5 == 4;
		for (int i = 0; i < KNOTS; ++i) {
			Y[i * stride] = In<OTYPE>::make(line ? level * slope * i : level * rng.wave(), level * rng.wave());
			// level now and then
			if (i && !line && c % 4 == 2 && rng.one_in(3))
				Y[i * stride] = Y[(i - 1) * stride];
			y[i] = In<OTYPE>::see(Y[i * stride]);
			top = std::max(top, std::max(std::abs(y[i].real()), std::abs(y[i].imag())));
		}
		std::vector<CLD> m = bend(y);
		typedef DSP::UniformNaturalCubicSpline<KNOTS, OTYPE, ITYPE> S;
		Box<S> made((int)rng.in(0, 255), Y.data(), x0, dx, stride), later((int)rng.in(0, 255));
		if (how == 0)
			*later = S(Y.data());
		else if (how == 1)
			*later = S(Y.data(), x0);
		else
			*later = *made;
		// the knots are no longer needed
		for (int i = 0; i < Y.size(); ++i)
			Y[i] = In<OTYPE>::make(-7e5, 7e5);
		int len = 40 + 2 * KNOTS;
		for (int t = 0; t < len; ++t) {
			LD s = t < KNOTS ? t : t < 2 * KNOTS ? t - KNOTS + rng.uni(-1e-3, 1e-3) : t % 8 ? rng.uni(-1.5, KNOTS + 0.5) : KNOTS * rng.uni(-9, 10);
			ITYPE x = ITYPE(x0 + s * dx);
			LD tx = ((LD)x - x0) / dx;
			int k = (int)std::floor(tx);
			k = std::max(0, std::min(k, KNOTS - 2));
			LD b = tx - k, a = 1 - b;
			CLD want = a * y[k] + b * y[k + 1] + ((a * a * a - a) * m[k] + (b * b * b - b) * m[k + 1]) / 6.L;
			LD far = std::max((LD)1, std::max(std::abs(a), std::abs(b)));
			// rounding of the position and of the evaluation
			LD pos = u * (std::abs((LD)x) + std::abs((LD)x0)) / std::abs((LD)dx) + u * std::abs(tx);
			LD tol = top * far * far * far * (24 * u + 12 * pos);
			CLD g1 = In<OTYPE>::see((*made)(x)), g2 = In<OTYPE>::see((*later)(x));
			NEAR("natural.value", g1.real(), want.real(), tol, t, k);
			NEAR("natural.value", g1.imag(), want.imag(), tol, t, k);
			NEAR("natural.assigned", g2.real(), want.real(), tol, t, k);
			NEAR("natural.assigned", g2.imag(), want.imag(), tol, t, k);
			if (t < KNOTS)
				NEAR("natural.knot", g1.real(), y[t].real(), tol, t, k);
			if (line && t >= 2 * KNOTS)
				NEAR("natural.line", g1.real(), level * slope * tx, tol + 8 * u * top * far * far * far, t, k);
		}
		event("evaluations", 2 * len);
	}
}

template <typename OTYPE, typename ITYPE>
static void all(Rng &rng, const char *type)
{
	spline<OTYPE, ITYPE, 2>(rng, type);
	spline<OTYPE, ITYPE, 3>(rng, type);
	spline<OTYPE, ITYPE, 4>(rng, type);
	spline<OTYPE, ITYPE, 5>(rng, type);
	spline<OTYPE, ITYPE, 8>(rng, type);
	spline<OTYPE, ITYPE, 17>(rng, type);
	spline<OTYPE, ITYPE, 64>(rng, type);
	spline<OTYPE, ITYPE, 257>(rng, type);
}

void workload()
{
	Rng rng(31);
	all<float, float>(rng, "float");
	all<double, double>(rng, "double");
	all<DSP::Complex<float>, float>(rng, "complex<float>");
	all<DSP::Complex<double>, double>(rng, "complex<double>");
}
