// C22: exponential moving averages
#include "mon.hh"
#include "complex.hh"
#include "ema.hh"

using namespace mon;

typedef std::complex<LD> CLD;

template <typename DUT>
static CLD response(DUT &dut, LD w, LD level)
{
	CLD sum = 0;
	int quiet = 0;
	for (int t = 0; t < 400000 && quiet < 8; ++t) {
		LD h = dut(t ? 0 : 1);
		sum += h * CLD(std::cos(w * t), -std::sin(w * t));
		quiet = t > 100 && std::abs(h) < level ? quiet + 1 : 0;
	}
	return sum;
}

template <typename T>
static void single(Rng &rng)
{
	const LD u = eps<T>();
	for (int c = 0; c < cases(150, 5000); ++c) {
		int s = (int)std::abs(rng.loguni(1, 2000));
		T start = T(rng.sym()), alpha = T(rng.u01());
		// nothing, everything, the mean of two
		if (c % 5 == 2)
			alpha = T(rng.in(0, 2)) / 2;
		if (c % 7 == 2)
			start = T(rng.in(-1, 1));
		run(true, "EMA<%s> samples=%d start=%g alpha=%g", name<T>(), s, (double)start, (double)alpha);
		// passes everything until told otherwise
		Box<DSP::EMA<T, T>> all((int)rng.in(0, 255));
		T v = T(rng.sym());
		NEAR("ema.default", (*all)(v), v, 2 * u);
		// forgets at the rate given, starting from the value given
		Box<DSP::EMA<T, T>> dut((int)rng.in(0, 255), start);
		dut->samples(s);
		LD want = start, a = 1 / (LD)s;
		for (int t = 0; t < 300; ++t) {
			T x = T(rng.wave());
			want = (1 - a) * want + a * x;
			NEAR("ema.samples", (*dut)(x), want, 4 * u + std::min(t, 2 * s) * u, t, s);
		}
		Box<DSP::EMA<T, T>> raw((int)rng.in(0, 255), start, alpha);
		want = start;
		for (int t = 0; t < 50; ++t) {
			T x = T(rng.wave());
			want = (1 - (LD)alpha) * want + alpha * (LD)x;
			NEAR("ema.alpha", (*raw)(x), want, (4 + t) * u, t);
		}
		// changing the rate keeps the average
		raw->samples(s);
		for (int t = 0; t < 50; ++t) {
			T x = T(rng.wave());
			want = (1 - a) * want + a * x;
			NEAR("ema.retune", (*raw)(x), want, (60 + t) * u, t);
		}
		event("averages", 3);
	}
	for (int c = 0; c < cases(60, 2000); ++c) {
		int N = (int)std::abs(rng.loguni(4, 1e7)), n = std::max(1, (int)rng.in(N / 100, N / 2));
		LD w = 2 * pi() * n / N, tol = sizeof(T) == 4 ? 1e-3L : 1e-10L;
		run(true, "EMA<%s> cutoff n=%d N=%d", name<T>(), n, N);
		DSP::EMA<T, T> dut;
		dut.cutoff(n, N);
		NEAR("ema.half-power", std::norm(response(dut, w, u / 100)), 0.5L, tol, n, N);
		DSP::EMA<T, T> two;
		two.cutoff(n, N);
		LD v = pi() * rng.u01();
		// of the first order low pass
		NEAR("ema.response", std::norm(response(two, v, u / 100)), 1 / (1 + std::pow(std::sin(v / 2) / std::sin(w / 2), 2)), tol, n, N);
		DSP::EMA<T, T> dc;
		dc.cutoff(n, N);
		NEAR("ema.dc", std::norm(response(dc, 0, u / 100)), 1, tol, n, N);
		event("cutoff frequencies");
	}
}

template <typename T, typename V>
static T value(V a, V b, T *) { (void)b; return a; }
template <typename T, typename V>
static DSP::Complex<T> value(V a, V b, DSP::Complex<T> *) { return DSP::Complex<T>(a, b); }
static CLD parts(LD v) { return v; }
template <typename T>
static CLD parts(DSP::Complex<T> v) { return CLD(v.real(), v.imag()); }

static LD coefficient(int n, int N)
{
	LD x = cosq(n, N);
	return x - 1 + std::sqrt(x * (x - 4) + 3);
}

// set anew amid a stream, by samples or cutoff, long memories among them
template <typename TYPE, typename T>
static void streams(Rng &rng, const char *type)
{
	const LD u = eps<T>();
	for (int c = 0; c < cases(60, 2000); ++c) {
		TYPE start = value(T(rng.sym()), T(rng.sym()), (TYPE *)0);
		LD level = std::abs(rng.loguni(1e-15, 1e15)), loss = 0;
		run(true, "EMA<%s> stream level=%.4Lg case %d", type, level, c);
		Box<DSP::EMA<TYPE, T>> dut((int)rng.in(0, 255), start);
		CLD want = parts(start);
		for (int part = 0; part < 5; ++part) {
			LD a = part || c & 1 ? 0 : 1, da = u;
			if (part || c & 1) {
				if (rng.next() & 1) {
					int s = (int)std::abs(rng.loguni(1, 1e9));
					dut->samples(s);
					a = 1 / (LD)s;
					da = u * a;
				} else {
					int N = (int)std::abs(rng.loguni(4, 1e7)), n = std::max(1, (int)rng.in(N / 100, N / 2));
					// nothing passes any more, or as much as can
					switch (rng.in(0, 7)) {
					case 0: n = 0; break;
					case 1: N += N & 1; n = N / 2; break;
					}
					dut->cutoff(n, N);
					a = coefficient(n, N);
					// the difference of one and something close to it
					da = 6 * u / (n ? a : 1);
				}
			}
			for (int t = 0; t < 80; ++t) {
				std::complex<double> v = rng.waves();
				TYPE x = value(T(level * v.real()), T(level * v.imag()), (TYPE *)0);
				LD mag = std::max(level, std::max(std::abs(want.real()), std::abs(want.imag())));
				want = (1 - a) * want + a * parts(x);
				loss = (1 - a) * loss + 2 * (da + 2 * u) * mag;
				CLD got = parts((*dut)(x));
				NEAR("ema.stream", got.real(), want.real(), loss + 2 * u * mag, t, part);
				NEAR("ema.stream", got.imag(), want.imag(), loss + 2 * u * mag, t, part);
			}
		}
		event("retuned averages");
	}
}

template <typename T, int ORDER>
static void cascade(Rng &rng)
{
	const LD u = eps<T>(), factor = ORDER == 1 ? 1 : std::sqrt(std::pow(2.L, 1.L / ORDER) - 1);
	Box<DSP::EMACascade<T, T, ORDER>> all((int)rng.in(0, 255));
	run(true, "EMACascade<%s,%d> untuned", name<T>(), ORDER);
	for (int t = 0; t < 5; ++t) {
		T v = T(rng.sym());
		NEAR("cascade.default", (*all)(v), v, 4 * u, t, ORDER);
	}
	for (int c = 0; c < cases(10, 300); ++c) {
		int N = (int)std::abs(rng.loguni(1000, 1e7)), n = std::max(1, (int)rng.in(N / 200, (int)(N * factor * 0.45L)));
		LD tol = (sizeof(T) == 4 ? 1e-3L : 1e-9L) * ORDER, w = 2 * pi() * n / N;
		int inner = (int)std::nearbyint(n / factor);
		LD w1 = 2 * pi() * inner / N;
		run(true, "EMACascade<%s,%d> n=%d N=%d", name<T>(), ORDER, n, N);
		auto probe = [&](LD v) {
			Box<DSP::EMACascade<T, T, ORDER>> dut((int)rng.in(0, 255));
			dut->cutoff(n, N);
			return std::norm(response(*dut, v, u / 1000));
		};
		LD v = pi() * rng.u01();
		NEAR("cascade.response", probe(v), std::pow(1 / (1 + std::pow(std::sin(v / 2) / std::sin(w1 / 2), 2)), ORDER), tol, n, N);
		NEAR("cascade.response", probe(w), std::pow(1 / (1 + std::pow(std::sin(w / 2) / std::sin(w1 / 2), 2)), ORDER), tol, n, N);
		NEAR("cascade.dc", probe(0), 1, tol, n, N);
		event("cascade responses", 3);
	}
	// the correction keeps the cutoff frequency well below the sampling rate
	for (int c = 0; c < cases(4, 60); ++c) {
		int N = 1000000, n = (int)rng.in(2000, 10000);
		run(true, "EMACascade<%s,%d> half power n=%d N=%d", name<T>(), ORDER, n, N);
		if (sizeof(T) == 4)
			break;
		DSP::EMACascade<T, T, ORDER> dut;
		dut.cutoff(n, N);
		NEAR("cascade.half-power", std::norm(response(dut, 2 * pi() * n / N, 1e-12L)), 0.5L, 0.005L, n, ORDER);
	}
	// time domain
	for (int c = 0; c < cases(4, 60); ++c) {
		int N = 0, n = 0;
		LD a = 0, least = 1;
		auto choose = [&]() {
			N = (int)rng.in(100, 10000);
			n = std::max(1, (int)(N * factor * rng.uni(0.02, 0.4)));
			a = coefficient((int)std::nearbyint(n / factor), N);
			least = std::min(least, a);
		};
		choose();
		std::vector<CLD> s(ORDER);
		run(true, "EMACascade<complex<%s>,%d> n=%d N=%d", name<T>(), ORDER, n, N);
		Box<DSP::EMACascade<DSP::Complex<T>, T, ORDER>> dut((int)rng.in(0, 255));
		dut->cutoff(n, N);
		for (int t = 0; t < 300; ++t) {
			// another cutoff keeps what all stages remember
			if (t && t % 100 == 0) {
				choose();
				dut->cutoff(n, N);
			}
			std::complex<double> w = rng.waves();
			DSP::Complex<T> in(w.real(), w.imag());
			CLD v(in.real(), in.imag());
			for (int i = 0; i < ORDER; ++i)
				v = s[i] = (1 - a) * s[i] + a * v;
			DSP::Complex<T> got = (*dut)(in);
			LD tol = u * (40 + 40 * ORDER) / least;
			NEAR("cascade.output", got.real(), v.real(), tol, t, ORDER);
			NEAR("cascade.output", got.imag(), v.imag(), tol, t, ORDER);
		}
	}
}

template <typename T, int... ORDER>
static void cascades(Rng &rng)
{
	int d[] = { (cascade<T, ORDER>(rng), 0)... };
	(void)d;
}

void workload()
{
	Rng rng(22);
	single<float>(rng);
	single<double>(rng);
	streams<float, float>(rng, "float");
	streams<double, double>(rng, "double");
	streams<DSP::Complex<float>, float>(rng, "complex<float>");
	streams<DSP::Complex<double>, double>(rng, "complex<double>");
	cascades<double, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>(rng);
	cascades<float, 1, 2, 3, 4, 8>(rng);
}
