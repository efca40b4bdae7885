// C01: the fast Fourier transform equals the discrete Fourier transform
#include "mon.hh"
#include "complex.hh"
#include "fft.hh"

using namespace mon;

// exact DFT in long double, all bins or a few
struct Ref
{
	int N;
	std::vector<LD> c, s;
	explicit Ref(int N) : N(N), c(N), s(N)
	{
		for (int n = 0; n < N; ++n) {
			c[n] = cosq(n, N);
			s[n] = sinq(n, N);
		}
	}
	template <typename CMPLX>
	void bin(LD *re, LD *im, const CMPLX *x, int k, int sign) const
	{
		LD a = 0, b = 0;
		for (int64_t n = 0, t = 0; n < N; ++n, t += k) {
			if (t >= N)
				t -= N;
			LD xr = x[n].real(), xi = x[n].imag(), cc = c[t], ss = sign * s[t];
			a += xr * cc - xi * ss;
			b += xr * ss + xi * cc;
		}
		*re = a;
		*im = b;
	}
};

template <typename CMPLX, int BINS, int SIGN>
struct Size
{
	typedef typename CMPLX::value_type value;
	// relative to the norm of the input: grows with the number of stages
	// and with the size of the largest direct butterfly
	static LD error()
	{
		int n = BINS, p = 1;
		for (int f = 2; n > 1; ++f)
			for (; n % f == 0; n /= f)
				p = f;
		return eps<value>() * (3 + 1.5L * std::log2((LD)BINS)) * (1 + 2 * std::sqrt((LD)p));
	}
	static void check(DSP::FastFourierTransform<BINS, CMPLX, SIGN> &dut, const Ref &ref, Rng &rng, int kind, int pos)
	{
		Buf<CMPLX> in(BINS), out(BINS), keep(BINS), again(BINS);
		LD scale = 1;
		for (int n = 0; n < BINS; ++n)
			in[n] = CMPLX(0);
		switch (kind) {
		case 0: // impulse: one column of the matrix
			in[pos] = CMPLX(1, 0);
			break;
		case 1:
			in[pos] = CMPLX(0, 1);
			break;
		case 2: // harmonic
			for (int n = 0; n < BINS; ++n)
				in[n] = CMPLX(cosq((LD)n * pos, BINS), sinq((LD)n * pos, BINS));
			break;
		case 3: // noise
			for (int n = 0; n < BINS; ++n)
				in[n] = CMPLX(rng.sym(), rng.sym());
			break;
		case 4: // real, offset
			for (int n = 0; n < BINS; ++n)
				in[n] = CMPLX(rng.uni(0, 2), 0);
			break;
		case 5: // large dynamic range and extreme scale
			scale = rng.loguni(1e-12, 1e12);
			for (int n = 0; n < BINS; ++n)
				in[n] = CMPLX(value(scale * rng.loguni(1e-3, 1)), value(scale * rng.loguni(1e-3, 1)));
			break;
		case 6: // sparse
			for (int i = 0; i < 3; ++i)
				in[(int)rng.in(0, BINS - 1)] = CMPLX(rng.sym(), rng.sym());
			break;
		default: // constant
			for (int n = 0; n < BINS; ++n)
				in[n] = CMPLX(1, -0.5);
		}
		Hash h;
		LD power = 0;
		for (int n = 0; n < BINS; ++n) {
			keep[n] = in[n];
			power += (LD)in[n].real() * in[n].real() + (LD)in[n].imag() * in[n].imag();
			h << in[n].real() << in[n].imag();
		}
		h << BINS << SIGN << (int)sizeof(value);
		label("fft<%s%d> BINS=%d SIGN=%d kind=%d pos=%d", std::is_same<CMPLX, DSP::Complex<value>>::value ? "" : "std ",
			8 * (int)sizeof(value), BINS, SIGN, kind, pos);
		tick(h.h, BINS > 1);
		dut(out, in);
		LD tol = error() * std::sqrt(power) + 1e-36L;
		int some = BINS <= 640 ? BINS : 40;
		for (int i = 0; i < some; ++i) {
			int k = some == BINS ? i : (int)rng.in(0, BINS - 1);
			if (some != BINS && kind == 2 && i == 0)
				k = (BINS - SIGN * pos) % BINS;
			LD re, im;
			ref.bin(&re, &im, in.data(), k, SIGN);
			// where all add up, the result is far larger than the norm
			LD peak = tol + eps<value>() * std::log2((LD)BINS) * (std::abs(re) + std::abs(im));
			NEAR("fft.re", out[k].real(), re, peak, k);
			NEAR("fft.im", out[k].imag(), im, peak, k);
		}
		for (int n = 0; n < BINS; ++n)
			OK("fft.input-untouched", keep[n] == in[n], n);
		// the object keeps no history
		dut(again, in);
		for (int n = 0; n < BINS; ++n)
			for (int j = 0; j < 2; ++j)
				NEAR("fft.repeatable", j ? again[n].imag() : again[n].real(), j ? out[n].imag() : out[n].real(), tol, n);
	}
	static void all(Rng &rng)
	{
		Box<DSP::FastFourierTransform<BINS, CMPLX, SIGN>> dut(0xFF);
		Ref ref(BINS);
		int cols = (int)std::min<int64_t>(BINS, BINS <= 200 ? cases(40, 200) : cases(3, 60));
		for (int i = 0; i < cols; ++i) {
			int pos = cols == BINS ? i : (int)rng.in(0, BINS - 1);
			check(*dut, ref, rng, i & 1, pos);
		}
		for (int i = 0; i < cases(2, 20); ++i)
			for (int kind = 2; kind <= 7; ++kind)
				check(*dut, ref, rng, kind, (int)rng.in(0, BINS - 1));
		event("transform sizes and directions");
	}
	static void back(Rng &rng)
	{
		Box<DSP::FastFourierTransform<BINS, CMPLX, SIGN>> dut(0xFF);
		Box<DSP::FastFourierTransform<BINS, CMPLX, -SIGN>> inv(0x5A);
		run(true, "fft<%d> BINS=%d SIGN=%d forward and backward", 8 * (int)sizeof(value), BINS, SIGN);
		Buf<CMPLX> a(BINS), b(BINS), c(BINS);
		LD power = 0;
		for (int n = 0; n < BINS; ++n) {
			a[n] = CMPLX(rng.sym(), rng.sym());
			power += (LD)a[n].real() * a[n].real() + (LD)a[n].imag() * a[n].imag();
		}
		(*dut)(b, a);
		(*inv)(c, b);
		LD tol = 2 * error() * std::sqrt(power * BINS);
		for (int n = 0; n < BINS; ++n) {
			NEAR("fft.roundtrip", c[n].real(), (LD)BINS * a[n].real(), tol, n);
			NEAR("fft.roundtrip", c[n].imag(), (LD)BINS * a[n].imag(), tol, n);
		}
	}
};

// opposite directions and both precisions, swapped in the next shard
template <int... BINS>
static void sizes(Rng &rng)
{
	const int S = SHARD % 2 ? 1 : -1;
	int d[] = { (Size<DSP::Complex<float>, BINS, S>::all(rng), Size<DSP::Complex<double>, BINS, -S>::all(rng), 0)... };
	(void)d;
}

void workload()
{
	Rng rng(100 + SHARD);
	const int S = SHARD % 2 ? 1 : -1;
#if SHARD / 2 == 0
	sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 24, 25, 27, 32, 35, 64, 120, 128>(rng);
	Size<DSP::Complex<double>, 60, S>::back(rng);
#elif SHARD / 2 == 1
	sizes<17, 19, 23, 29, 31, 22, 26, 34, 38, 46, 58, 62>(rng);
	// std::complex as element type
	Size<std::complex<float>, 60, S>::all(rng);
	Size<std::complex<double>, 77, S>::all(rng);
#elif SHARD / 2 == 2
	sizes<49, 121, 169, 289, 361, 256, 512, 1000, 1024>(rng);
#elif SHARD / 2 == 3
	sizes<529, 841, 961, 29 * 31, 2048, 4096, 1155, 65536>(rng);
	// the rest on the thorough tier only
#elif SHARD / 2 == 4
	sizes<65536, 16384, 32768, 44100, 1280, 640, 7680, 13 * 17 * 19, 13 * 13 * 13>(rng);
#elif SHARD / 2 == 5
	sizes<23 * 29, 23 * 31, 31 * 19, 29 * 17, 961 * 2, 841 * 3, 31 * 8, 29 * 16, 23 * 9>(rng);
#elif SHARD / 2 == 6
	sizes<17, 19, 21, 22, 23, 26, 28, 29, 30, 31, 33, 34, 36, 38, 39, 40, 42, 44, 45, 46, 48, 50, 51, 52>(rng);
#elif SHARD / 2 == 7
	sizes<54, 55, 56, 57, 58, 60, 62, 63, 77, 81, 96, 125, 343, 8192, 16 * 27, 2310, 17 * 19, 93, 174, 92, 152>(rng);
#endif
}
