// C03: interpolation by zero padding in the frequency domain
#include "mon.hh"
#include "complex.hh"
#include "fdzp.hh"

using namespace mon;

template <typename V, int OUTPUT, int INPUT>
struct Size
{
	typedef DSP::Complex<V> C;
	static void check(DSP::FDZP<OUTPUT, INPUT, C> &dut, Rng &rng, int kind, int pos)
	{
		static const char *kinds[] = { "impulse", "harmonic", "noise", "alternating", "scaled" };
		Buf<C> in(INPUT), out(OUTPUT);
		LD scale = kind == 4 ? std::abs(rng.loguni(1e-9, 1e9)) : 1, power = 0;
		Hash h;
		h << OUTPUT << INPUT << (int)sizeof(V);
		for (int n = 0; n < INPUT; ++n) {
			LD t = (LD)((int64_t)n * pos % INPUT);
			switch (kind) {
			case 0: in[n] = n == pos ? C(1, 0.5) : C(0, 0); break;
			case 1: in[n] = C(cosq(t, INPUT), sinq(t, INPUT)); break;
			case 3: in[n] = n & 1 ? C(-1, 1) : C(1, -1); break;
			default: in[n] = C(scale * rng.sym(), scale * rng.sym());
			}
			power += (LD)in[n].real() * in[n].real() + (LD)in[n].imag() * in[n].imag();
			h << in[n].real() << in[n].imag();
		}
		std::vector<C> keep(in.data(), in.data() + INPUT);
		label("FDZP<%s> OUTPUT=%d INPUT=%d %s pos=%d", name<V>(), OUTPUT, INPUT, kinds[kind], pos);
		tick(h.h, INPUT > 1);
		dut(out, in);
		// spectrum
		std::vector<LD> re(INPUT), im(INPUT);
		for (int k = 0; k < INPUT; ++k)
			for (int n = 0; n < INPUT; ++n) {
				LD t = (LD)((int64_t)n * k % INPUT), c = cosq(t, INPUT), s = -sinq(t, INPUT);
				re[k] += in[n].real() * c - in[n].imag() * s;
				im[k] += in[n].real() * s + in[n].imag() * c;
			}
		LD tol = eps<V>() * (10 + 4 * std::log2((LD)OUTPUT)) * std::sqrt(power) * 0.6L + 1e-36L;
		int some = OUTPUT <= 300 ? OUTPUT : 60;
		for (int i = 0; i < some; ++i) {
			int m = some == OUTPUT ? i : (int)rng.in(0, OUTPUT - 1);
			LD yr = 0, yi = 0;
			// trigonometric polynomial of lowest frequencies through the input
			for (int k = 0; k < INPUT; ++k) {
				int f = 2 * k > INPUT ? k - INPUT : k;
				LD t = (LD)((((int64_t)f * m) % OUTPUT + OUTPUT) % OUTPUT);
				LD c = cosq(t, OUTPUT), s = 2 * k == INPUT ? 0 : sinq(t, OUTPUT);
				yr += re[k] * c - im[k] * s;
				yi += re[k] * s + im[k] * c;
			}
			NEAR("fdzp.re", out[m].real(), yr / INPUT, tol, m, OUTPUT);
			NEAR("fdzp.im", out[m].imag(), yi / INPUT, tol, m, OUTPUT);
		}
		// passes through the input where the grids meet
		for (int n = 0; n < INPUT; ++n)
			if ((int64_t)n * OUTPUT % INPUT == 0) {
				int m = (int)((int64_t)n * OUTPUT / INPUT);
				NEAR("fdzp.through", out[m].real(), in[n].real(), tol, n, OUTPUT);
				NEAR("fdzp.through", out[m].imag(), in[n].imag(), tol, n, OUTPUT);
			}
		for (int n = 0; n < INPUT; ++n)
			OK("fdzp.input-untouched", keep[n] == in[n], n);
	}
	static void all(Rng &rng)
	{
		Box<DSP::FDZP<OUTPUT, INPUT, C>> dut((int)rng.in(0, 255));
		for (int c = 0; c < cases(1, 8); ++c) {
			for (int i = 0; i < std::min(INPUT, 24); ++i)
				check(*dut, rng, i & 1, INPUT <= 24 ? i : (int)rng.in(0, INPUT - 1));
			for (int kind = 2; kind <= 4; ++kind)
				check(*dut, rng, kind, 0);
			check(*dut, rng, 1, INPUT / 2);
			check(*dut, rng, 1, (INPUT + 1) / 2 % INPUT);
		}
		event("size pairs");
	}
};

template <int INPUT, int... OUTPUT>
static void sizes(Rng &rng)
{
	int d[] = { (Size<typename std::conditional<(OUTPUT + INPUT) & 1, float, double>::type, OUTPUT, INPUT>::all(rng), 0)... };
	(void)d;
}

void workload()
{
	Rng rng(300 + SHARD);
#if SHARD == 0
	sizes<1, 2, 3, 8>(rng);
	sizes<2, 3, 4, 5, 6, 8>(rng);
	sizes<3, 4, 5, 6, 7, 9, 12>(rng);
	sizes<4, 5, 6, 7, 8, 9, 16>(rng);
	sizes<5, 6, 7, 8, 9, 10, 15>(rng);
#elif SHARD == 1
	sizes<6, 7, 8, 9, 10, 12, 13>(rng);
	sizes<7, 8, 9, 10, 11, 14, 21>(rng);
	sizes<8, 9, 10, 11, 12, 13, 16>(rng);
	sizes<9, 10, 12, 13, 14, 18>(rng);
#elif SHARD == 2
	sizes<16, 17, 20, 24, 25, 32, 48, 64>(rng);
	sizes<15, 16, 20, 22, 24, 30>(rng);
	sizes<64, 65, 96, 100, 128>(rng);
	sizes<25, 26, 36, 50, 60>(rng);
#elif SHARD == 3
	sizes<10, 11, 12, 13, 14, 15, 16, 18, 20, 30>(rng);
	sizes<11, 12, 13, 14, 15, 16, 17, 22, 33>(rng);
	sizes<12, 13, 14, 15, 16, 17, 18, 24, 120>(rng);
	sizes<13, 14, 15, 16, 17, 18, 19, 20, 26>(rng);
	sizes<100, 110, 121, 128, 200>(rng);
	sizes<81, 100, 128, 162, 243>(rng);
	sizes<256, 1024>(rng);
#endif
}
