// C02: transform of real input
#include "mon.hh"
#include "complex.hh"
#include "fft.hh"

using namespace mon;

template <typename V, int BINS>
struct Size
{
	typedef DSP::Complex<V> C;
	typedef DSP::RealToHalfComplexTransform<BINS, C> DUT;
	static const int N = BINS / 2;
	static LD error()
	{
		int n = BINS, p = 1;
		for (int f = 2; n > 1; ++f)
			for (; n % f == 0; n /= f)
				p = f;
		return eps<V>() * (5 + 2 * std::log2((LD)BINS)) * (1 + 2 * std::sqrt((LD)p));
	}
	static void check(DUT &dut, Rng &rng, int kind, int pos)
	{
		static const char *kinds[] = { "impulse", "cosine", "sine", "noise", "offset", "alternating", "scaled" };
		Buf<V> in(BINS);
		Buf<C> out(N + 1), again(N + 1);
		LD scale = kind == 6 ? std::abs(rng.loguni(1e-12, 1e12)) : 1, power = 0;
		Hash h;
		h << BINS << kind << (int)sizeof(V);
		for (int n = 0; n < BINS; ++n) {
			switch (kind) {
			case 0: in[n] = n == pos; break;
			case 1: in[n] = cosq((LD)n * pos, BINS); break;
			case 2: in[n] = sinq((LD)n * pos, BINS); break;
			case 4: in[n] = 1 + rng.u01(); break;
			case 5: in[n] = n & 1 ? -1 : 1; break;
			default: in[n] = scale * rng.sym();
			}
			power += (LD)in[n] * in[n];
			h << in[n];
		}
		std::vector<V> keep(in.data(), in.data() + BINS);
		label("RealToHalfComplex<%s> BINS=%d %s pos=%d", name<V>(), BINS, kinds[kind], pos);
		tick(h.h);
		dut(out, in);
		dut(again, in);
		LD tol = error() * std::sqrt(power) + 1e-36L;
		int some = BINS <= 700 ? N + 1 : 40;
		for (int i = 0; i < some; ++i) {
			int k = some == N + 1 ? i : i == 0 ? 0 : i == 1 ? N : i == 2 ? N / 2 : (int)rng.in(0, N);
			LD re = 0, im = 0;
			for (int n = 0; n < BINS; ++n) {
				LD t = (LD)((int64_t)n * k % BINS);
				re += in[n] * cosq(t, BINS);
				im -= in[n] * sinq(t, BINS);
			}
			// the two purely real bins carry half their weight
			if (k == 0 || k == N) {
				re /= 2;
				im = 0;
			}
			// where all add up, the result is far larger than the norm
			LD peak = tol + eps<V>() * std::log2((LD)BINS) * (std::abs(re) + std::abs(im));
			NEAR("half.re", out[k].real(), re, peak, k, BINS);
			NEAR("half.im", out[k].imag(), im, k == 0 || k == N ? 0 : peak, k, BINS);
			NEAR("half.repeatable", again[k].real(), out[k].real(), tol, k, BINS);
			NEAR("half.repeatable", again[k].imag(), out[k].imag(), tol, k, BINS);
		}
		if (BINS <= 200) {
			// which is the weighting that makes the real part of the plain inverse sum reproduce the input
			for (int n = 0; n < BINS; ++n) {
				LD x = 0;
				for (int k = 0; k <= N; ++k) {
					LD t = (LD)((int64_t)n * k % BINS);
					x += out[k].real() * cosq(t, BINS) - out[k].imag() * sinq(t, BINS);
				}
				NEAR("half.inverse", 2 * x / BINS, in[n], 3 * error() * std::sqrt(power) + 1e-36L, n, BINS);
			}
		}
		for (int n = 0; n < BINS; ++n)
			OK("half.input-untouched", keep[n] == in[n], n, BINS);
	}
	static void all(Rng &rng)
	{
		Box<DUT> dut((int)rng.in(0, 255));
		int cols = (int)std::min<int64_t>(BINS, BINS <= 200 ? cases(32, 200) : cases(3, 60));
		for (int i = 0; i < cols; ++i)
			check(*dut, rng, 0, cols == BINS ? i : (int)rng.in(0, BINS - 1));
		for (int i = 0; i < cases(2, 20); ++i)
			for (int kind = 1; kind <= 6; ++kind)
				check(*dut, rng, kind, i == 0 ? N : (int)rng.in(0, N));
		event("transform sizes");
	}
};

template <int... BINS>
static void sizes(Rng &rng)
{
	int d[] = { (Size<float, BINS>::all(rng), Size<double, BINS>::all(rng), 0)... };
	(void)d;
}

void workload()
{
	Rng rng(200 + SHARD);
#if SHARD == 0
	sizes<2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 36, 40>(rng);
#elif SHARD == 1
	sizes<48, 50, 60, 64, 66, 96, 98, 100, 126, 128, 130, 154, 256, 1024, 1000, 2048>(rng);
#elif SHARD == 2
	sizes<34, 38, 46, 58, 62, 512, 4096, 65536>(rng);
#elif SHARD == 3
	sizes<42, 44, 52, 54, 56, 68, 70, 72, 76, 80, 90, 116, 124, 8192, 44100, 2 * 29 * 31, 2 * 23 * 19>(rng);
#endif
}
