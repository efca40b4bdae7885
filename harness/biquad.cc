// C21: second order sections
#include "mon.hh"
#include "complex.hh"
#include "biquad.hh"

using namespace mon;

typedef std::complex<LD> CLD;

enum { LOW, HIGH, NOTCH, BAND, ALL };
static const char *kinds[] = { "lowpass", "highpass", "notch", "bandpass", "allpass" };

// analog prototype on the warped frequency axis
static CLD prototype(int kind, LD w, LD wc, LD Q)
{
	CLD s(0, std::tan(w / 2) / std::tan(wc / 2)), den = s * s + s / Q + (LD)1;
	switch (kind) {
	case LOW: return (LD)1 / den;
	case HIGH: return s * s / den;
	case NOTCH: return (s * s + (LD)1) / den;
	case BAND: return s / Q / den;
	default: return (s * s - s / Q + (LD)1) / den;
	}
}

// time domain reference
struct Ref
{
	LD b0 = 1, b1 = 0, b2 = 0, a1 = 0, a2 = 0;
	CLD x1 = 0, x2 = 0, y1 = 0, y2 = 0;
	void tune(int kind, LD wc, LD Q)
	{
		// bilinear transform of the prototype, scaled to K = tan(wc / 2)
		LD K = std::tan(wc / 2), d = 1 + K / Q + K * K;
		a1 = 2 * (K * K - 1) / d;
		a2 = (1 - K / Q + K * K) / d;
		switch (kind) {
		case LOW: b0 = K * K / d; b1 = 2 * b0; b2 = b0; break;
		case HIGH: b0 = 1 / d; b1 = -2 / d; b2 = 1 / d; break;
		case NOTCH: b0 = (1 + K * K) / d; b1 = a1; b2 = b0; break;
		case BAND: b0 = K / Q / d; b1 = 0; b2 = -b0; break;
		default: b0 = a2; b1 = a1; b2 = 1;
		}
	}
	CLD operator () (CLD x0)
	{
		CLD y0 = b0 * x0 + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2;
		x2 = x1; x1 = x0;
		y2 = y1; y1 = y0;
		return y0;
	}
};

template <typename V> struct In { static V make(CLD v) { return V(v.real()); } static CLD see(V v) { return v; } };
template <typename V> struct In<DSP::Complex<V>>
{
	static DSP::Complex<V> make(CLD v) { return DSP::Complex<V>(v.real(), v.imag()); }
	static CLD see(DSP::Complex<V> v) { return CLD(v.real(), v.imag()); }
};

template <typename DUT, typename VALUE>
static void tune(DUT &dut, int kind, int n, int N, LD Q, LD QdB)
{
	switch (kind) {
	case LOW: dut.lowpass(n, N, VALUE(Q)); break;
	case HIGH: dut.highpass(n, N, VALUE(Q)); break;
	case NOTCH: dut.notch(n, N, VALUE(QdB)); break;
	case BAND: dut.bandpass(n, N, VALUE(QdB)); break;
	default: dut.allpass(n, N, VALUE(QdB));
	}
}

template <typename TYPE, typename VALUE>
static void sections(Rng &rng, const char *type)
{
	for (int c = 0; c < cases(200, 6000); ++c) {
		int kind = c % 5, N = (int)std::abs(rng.loguni(8, 1e7));
		// keep the poles at a distance from the unit circle that the precision can resolve
		LD least = sizeof(VALUE) == 4 ? 0.02L : 0.0005L;
		int n = std::max(1, (int)std::ceil(least * N)), top = std::max(n, (int)(0.48L * N));
		n = (int)rng.in(n, top);
		if (2 * n >= N)
			n = N / 4;
		VALUE QdB = VALUE(sizeof(VALUE) == 4 ? rng.uni(-6, 10) : rng.uni(-6, 25));
		LD Q = kind <= HIGH ? (LD)(VALUE)rng.uni(0.4, sizeof(VALUE) == 4 ? 6 : 60) : std::pow(10.L, (LD)QdB / 10);
		// round ones
		if (c % 7 == 3) {
			static const double R[] = { 0.5, 1, 2, 5, 0.70710678118654752440 }, L[] = { 0, 3, -3, 10, 6 };
			int i = (int)rng.in(0, 4);
			QdB = VALUE(L[i]);
			Q = kind <= HIGH ? (LD)(VALUE)R[i] : std::pow(10.L, (LD)QdB / 10);
		}
		bool standard = kind <= HIGH && c % 3 == 0;
		if (standard)
			Q = std::sqrt(0.5L);
		LD wc = 2 * pi() * n / N, damp = std::sin(wc) / (2 * Q);
		run(true, "Biquad<%s> %s n=%d N=%d Q=%.4Lg case %d", type, kinds[kind], n, N, Q, c);
		Box<DSP::Biquad<TYPE, VALUE>> dut((int)rng.in(0, 255));
		// untuned: passes everything
		for (int i = 0; i < 4; ++i) {
			CLD x = rng.waves();
			TYPE v = In<TYPE>::make(x);
			CLD y = In<TYPE>::see((*dut)(v));
			NEAR("biquad.identity", y.real(), In<TYPE>::see(v).real(), 2 * eps<VALUE>());
			NEAR("biquad.identity", y.imag(), In<TYPE>::see(v).imag(), 2 * eps<VALUE>());
		}
		Ref ref;
		Box<DSP::Biquad<TYPE, VALUE>> two((int)rng.in(0, 255));
		auto set = [&](int k) {
			VALUE dB = k == kind ? QdB : VALUE(10 * std::log10(Q));
			if (standard && k == LOW)
				two->lowpass(n, N);
			else if (standard && k == HIGH)
				two->highpass(n, N);
			else
				tune<DSP::Biquad<TYPE, VALUE>, VALUE>(*two, k, n, N, Q, dB);
			ref.tune(k, wc, k <= HIGH ? Q : std::pow(10.L, (LD)dB / 10));
		};
		set(kind);
		int len = 600, change = c % 4 == 3 ? 300 : len;
		LD peak = 1;
		LD gain = 8 / (std::min(damp, (LD)1) * std::sin(wc / 2 < 1 ? wc / 2 : 1.L));
		// the phase of the poles: coefficient rounding moves them by eps / sin(wc)
		gain = gain / std::sin(wc);
		for (int t = 0; t < len; ++t) {
			if (t == change)
				// another kind with the same quality
				set((kind + 1 + c / 20 % 4) % 5);
			CLD x = t == 0 ? CLD(1, -1) : t < 200 ? 0 : CLD(rng.waves());
			TYPE v = In<TYPE>::make(x);
			CLD want = ref(In<TYPE>::see(v)), got = In<TYPE>::see((*two)(v));
			peak = std::max(peak, std::max(std::abs(want.real()), std::abs(want.imag())));
			NEAR("biquad.output", got.real(), want.real(), eps<VALUE>() * gain * peak, t, kind);
			NEAR("biquad.output", got.imag(), want.imag(), eps<VALUE>() * gain * peak, t, kind);
		}
		event("filtered samples", len);
	}
}

// set anew amid a stream, where all but one of the settings may stay the same
template <typename TYPE, typename VALUE>
static void retuned(Rng &rng, const char *type)
{
	for (int c = 0; c < cases(80, 2000); ++c) {
		run(true, "Biquad<%s> retuned case %d", type, c);
		Box<DSP::Biquad<TYPE, VALUE>> dut((int)rng.in(0, 255));
		Ref ref;
		LD level = std::abs(rng.loguni(1e-15, 1e15)), peak = level, gain = 8;
		int kind = LOW, n = 1, N = 4;
		VALUE dB = 0;
		for (int part = 0; part < 8; ++part) {
			int keep = part ? (int)rng.in(0, 5) : 0;
			if (keep != 1)
				kind = (int)rng.in(0, 4);
			if (keep != 2 && keep != 1) {
				N = (int)std::abs(rng.loguni(8, 1e7));
				n = std::max(1, (int)rng.in(N / 25, N * 12 / 25));
				if (part % 3 == 2)
					N = 4 * n;
				if (keep == 5 && N < 100000)
					N *= 4, n *= 4;
			}
			if (keep != 3)
				dB = VALUE(part % 4 == 3 ? 0 : sizeof(VALUE) == 4 ? rng.uni(-6, 10) : rng.uni(-6, 25));
			LD Q = std::pow(10.L, (LD)dB / 10), wc = 2 * pi() * n / N;
			if (kind <= HIGH) {
				if (keep == 4) {
					Q = std::sqrt(0.5L);
					kind == LOW ? dut->lowpass(n, N) : dut->highpass(n, N);
				} else {
					Q = (VALUE)Q;
					tune<DSP::Biquad<TYPE, VALUE>, VALUE>(*dut, kind, n, N, Q, dB);
				}
			} else {
				tune<DSP::Biquad<TYPE, VALUE>, VALUE>(*dut, kind, n, N, Q, dB);
			}
			ref.tune(kind, wc, Q);
			gain = std::max(gain, 8 / (std::min(std::sin(wc) / (2 * Q), (LD)1) * std::sin(wc / 2 < 1 ? wc / 2 : 1.L) * std::sin(wc)));
			for (int t = 0; t < 50; ++t) {
				TYPE v = In<TYPE>::make(level * CLD(rng.waves()));
				CLD want = ref(In<TYPE>::see(v)), got = In<TYPE>::see((*dut)(v));
				peak = std::max(peak, std::max(std::abs(want.real()), std::abs(want.imag())));
				NEAR("biquad.retuned", got.real(), want.real(), eps<VALUE>() * gain * peak, t, part);
				NEAR("biquad.retuned", got.imag(), want.imag(), eps<VALUE>() * gain * peak, t, part);
			}
		}
		event("retuned sections");
	}
}

// frequency response of whatever is in there, from its impulse response
template <typename DUT>
static std::vector<LD> impulse(DUT &dut, LD level)
{
	std::vector<LD> h;
	int quiet = 0;
	for (int t = 0; t < 20000 && quiet < 64; ++t) {
		h.push_back(dut(t ? 0 : 1));
		quiet = std::abs(h.back()) < level ? quiet + 1 : 0;
	}
	return h;
}

static CLD response(const std::vector<LD> &h, LD w)
{
	CLD sum = 0;
	for (size_t t = 0; t < h.size(); ++t)
		sum += h[t] * CLD(std::cos(w * t), -std::sin(w * t));
	return sum;
}

static void responses(Rng &rng)
{
	for (int c = 0; c < cases(100, 3000); ++c) {
		int kind = c % 5, N = (int)std::abs(rng.loguni(20, 1e7)), n = std::max(1, (int)rng.in(N / 50, N * 45 / 100));
		double QdB = rng.uni(-6, 8), Qv = rng.uni(0.4, 4);
		LD Q = kind <= HIGH ? (LD)Qv : std::pow(10.L, (LD)QdB / 10), wc = 2 * pi() * n / N;
		run(true, "Biquad<double> response %s n=%d N=%d Q=%.4Lg", kinds[kind], n, N, Q);
		DSP::Biquad<double, double> dut;
		tune<DSP::Biquad<double, double>, double>(dut, kind, n, N, Q, QdB);
		auto h = impulse(dut, 1e-14L);
		for (int i = 0; i < 12; ++i) {
			LD w = i == 0 ? wc : i == 1 ? 0.001L : i == 2 ? 3.14L : pi() * rng.u01();
			CLD want = prototype(kind, w, wc, Q), got = response(h, w);
			NEAR("biquad.response", got.real(), want.real(), 1e-9L, i, kind);
			NEAR("biquad.response", got.imag(), want.imag(), 1e-9L, i, kind);
		}
		// landmarks, by definition
		LD dc = std::abs(response(h, 0)), ny = std::abs(response(h, pi())), at = std::abs(response(h, wc));
		if (kind == LOW || kind == NOTCH || kind == ALL)
			NEAR("biquad.dc.pass", dc, 1, 1e-9L, kind);
		else
			NEAR("biquad.dc.stop", dc, 0, 1e-9L, kind);
		if (kind == HIGH || kind == NOTCH || kind == ALL)
			NEAR("biquad.nyquist.pass", ny, 1, 1e-9L, kind);
		else
			NEAR("biquad.nyquist.stop", ny, 0, 1e-9L, kind);
		NEAR("biquad.center", at, kind <= HIGH ? Q : kind == NOTCH ? 0 : 1, 1e-9L * std::max((LD)1, Q), kind);
		event("frequency responses");
	}
}

template <typename TYPE, typename VALUE, int NUM>
static void cascades(Rng &rng)
{
	for (int c = 0; c < cases(12, 400); ++c) {
		int N = (int)std::abs(rng.loguni(40, 1e7)), n = std::max(1, (int)rng.in(N / 20, N * 42 / 100));
		bool high = c & 1;
		LD wc = 2 * pi() * n / N;
		run(true, "BiquadCascade<%s,%d> %s n=%d N=%d", name<VALUE>(), NUM, kinds[high], n, N);
		Box<DSP::BiquadCascade<TYPE, VALUE, NUM>> dut((int)rng.in(0, 255));
		// untuned: identity
		NEAR("cascade.identity", (*dut)(TYPE(0.75)), 0.75L, 4 * 2 * eps<VALUE>());
		Box<DSP::BiquadCascade<TYPE, VALUE, NUM>> two((int)rng.in(0, 255));
		if (high)
			two->highpass(n, N);
		else
			two->lowpass(n, N);
		LD tol = (sizeof(VALUE) == 4 ? 2e-4L : 1e-9L) * NUM;
		auto h = impulse(*two, eps<VALUE>() / 100);
		for (int i = 0; i < 16; ++i) {
			LD w = i == 0 ? wc : i == 1 ? 0 : i == 2 ? pi() : i < 6 ? wc * rng.uni(0.8, 1.1) : pi() * rng.u01();
			if (w > pi())
				w = pi();
			CLD want = 1;
			for (int k = 0; k < NUM; ++k)
				want *= w == pi() ? CLD(high, 0) : prototype(high ? HIGH : LOW, w, wc, 1 / (2 * cosq(2 * k + 1, 8 * NUM)));
			CLD got = response(h, w);
			NEAR("cascade.response", got.real(), want.real(), tol, i, NUM);
			NEAR("cascade.response", got.imag(), want.imag(), tol, i, NUM);
			// maximally flat magnitude
			LD O = w == pi() ? 1e6L : std::tan(w / 2) / std::tan(wc / 2), flat = std::pow(high ? 1 / (O + 1e-30L) : O, 4 * NUM);
			NEAR("cascade.flat", std::norm(got), 1 / (1 + flat), 2 * tol, i, NUM);
		}
		NEAR("cascade.half-power", std::norm(response(h, wc)), 0.5L, 2 * tol, NUM);
		event("cascade responses");
	}
}

// amid a stream: retuning keeps what every section remembers
template <typename TYPE, typename VALUE, int NUM>
static void streams(Rng &rng, const char *type)
{
	for (int c = 0; c < cases(16, 400); ++c) {
		run(true, "BiquadCascade<%s,%d> stream case %d", type, NUM, c);
		Box<DSP::BiquadCascade<TYPE, VALUE, NUM>> dut((int)rng.in(0, 255));
		Ref ref[NUM];
		LD level = std::abs(rng.loguni(1e-15, 1e15)), peak = level, gain = 8;
		for (int part = 0; part < 4; ++part) {
			int N = (int)std::abs(rng.loguni(40, 1e7)), n = std::max(1, (int)rng.in(N / 20, N * 42 / 100));
			bool high = rng.next() & 1;
			if (high)
				dut->highpass(n, N);
			else
				dut->lowpass(n, N);
			LD wc = 2 * pi() * n / N;
			for (int k = 0; k < NUM; ++k) {
				LD Q = 1 / (2 * cosq(2 * k + 1, 8 * NUM));
				ref[k].tune(high ? HIGH : LOW, wc, Q);
				gain = std::max(gain, NUM * 16 * (2 * Q) / (std::sin(wc) * std::sin(wc) * std::sin(wc / 2)));
			}
			for (int t = 0; t < 100; ++t) {
				TYPE v = In<TYPE>::make(level * CLD(rng.waves()));
				CLD want = In<TYPE>::see(v), got = In<TYPE>::see((*dut)(v));
				for (int k = 0; k < NUM; ++k) {
					want = ref[k](want);
					peak = std::max(peak, std::max(std::abs(want.real()), std::abs(want.imag())));
				}
				NEAR("cascade.stream", got.real(), want.real(), eps<VALUE>() * gain * peak, t, part);
				NEAR("cascade.stream", got.imag(), want.imag(), eps<VALUE>() * gain * peak, t, part);
			}
		}
		event("retuned cascades");
	}
}

void workload()
{
	Rng rng(21);
	sections<float, float>(rng, "float");
	sections<double, double>(rng, "double");
	sections<DSP::Complex<float>, float>(rng, "complex<float>");
	sections<DSP::Complex<double>, double>(rng, "complex<double>");
	retuned<float, float>(rng, "float");
	retuned<double, double>(rng, "double");
	retuned<DSP::Complex<float>, float>(rng, "complex<float>");
	retuned<DSP::Complex<double>, double>(rng, "complex<double>");
	responses(rng);
	cascades<double, double, 1>(rng);
	cascades<double, double, 2>(rng);
	cascades<double, double, 3>(rng);
	cascades<double, double, 4>(rng);
	cascades<double, double, 5>(rng);
	cascades<double, double, 8>(rng);
	cascades<float, float, 1>(rng);
	cascades<float, float, 2>(rng);
	cascades<float, float, 3>(rng);
	streams<float, float, 1>(rng, "float");
	streams<float, float, 3>(rng, "float");
	streams<double, double, 2>(rng, "double");
	streams<double, double, 5>(rng, "double");
	streams<double, double, 8>(rng, "double");
	streams<DSP::Complex<float>, float, 2>(rng, "complex<float>");
	streams<DSP::Complex<double>, double, 1>(rng, "complex<double>");
	streams<DSP::Complex<double>, double, 4>(rng, "complex<double>");
}
