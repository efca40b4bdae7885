// C44: continuous use
#include <deque>
#include <memory>
#include <string>
#include "mon.hh"
#include "complex.hh"
#include "const.hh"
#include "delay.hh"
#include "bip_buffer.hh"
#include "deque.hh"
#include "stack.hh"
#include "swa.hh"
#include "sma.hh"
#include "movext.hh"
#include "ema.hh"
#include "biquad.hh"
#include "blockdc.hh"
#include "normalize.hh"
#include "hilbert.hh"
#include "cdc.hh"
#include "fmd.hh"
#include "amd.hh"
#include "trigger.hh"
#include "calculus.hh"
#include "resampler.hh"
#include "lms.hh"
#include "kahan.hh"
#include "phasor.hh"

using namespace mon;

static int64_t length() { return cases((1 << 20) + 3000, (1 << 22) + 3000); }

static LD re(LD v) { return v; }
static LD im(LD) { return 0; }
template <typename T> static LD re(DSP::Complex<T> v) { return v.real(); }
template <typename T> static LD im(DSP::Complex<T> v) { return v.imag(); }

// the stream: any part of it can be had again
struct Stream
{
	uint64_t key;
	double last = 0;
	uint64_t raw(int64_t t) const { return mix(key + (uint64_t)t * 0x9E3779B97F4A7C15ull); }
	int64_t in(int64_t t, int64_t a, int64_t b) const { return a + (int64_t)(raw(t) % (uint64_t)(b - a + 1)); }
	double sym(int64_t t) const
	{
		uint64_t r = raw(t);
		// silent and constant passages
		uint64_t block = raw(-1 - t / 50);
		if (block % 16 == 0)
			return 0;
		if (block % 16 == 1)
			return 0.5;
		return (double)(int64_t)(r >> 11) * 0x1p-52 - 1;
	}
};

// places to look at: around what counters may hold, and anywhere
static std::vector<int64_t> places(int64_t len, int64_t memory, int64_t look, Rng &rng)
{
	std::vector<int64_t> p;
	for (int64_t n = 1 << 12; n + look < len; n *= 2)
		p.push_back(n - look / 2);
	for (int64_t n: { 10000, 44100, 48000, 100000, 1000000 })
		p.push_back(n - look / 2);
	for (int i = 0; i < 6; ++i)
		p.push_back(rng.in(0, len - look - 1));
	p.push_back(len - look);
	std::sort(p.begin(), p.end());
	std::vector<int64_t> q;
	for (int64_t n: p)
		if (n >= memory && n + look <= len && (q.empty() || n - memory >= q.back() + look))
			q.push_back(n);
	return q;
}

// a fresh one that knows the last inputs only does the same
template <typename DUT, typename FEED, typename OUT>
static void forget(const char *what, int size, FEED feed, OUT *, std::function<std::unique_ptr<DUT> ()> make, int64_t memory, LD tol, Rng &rng)
{
	memory += memory & 1;
	const int64_t look = 64;
	int64_t len = length();
	std::string label = what;
	for (size_t at; (at = label.find(" COMMA")) != std::string::npos;)
		label.replace(at, 6, ",");
	run(true, "%s of %d bits, %lld inputs, memory %lld", label.c_str(), size, (long long)len, (long long)memory);
	auto at = places(len, memory, look, rng);
	std::unique_ptr<DUT> dut = make(), fresh;
	size_t k = 0;
	for (int64_t t = 0; t < len; ++t) {
		// started an even number of inputs later
		if (k < at.size() && t == ((at[k] - memory) & ~(int64_t)1))
			fresh = make();
		OUT got = feed(*dut, t);
		if (k < at.size() && fresh) {
			OUT want = feed(*fresh, t);
			if (t >= at[k]) {
				NEAR("long.output", re(got), re(want), tol, (long)t);
				NEAR("long.output", im(got), im(want), tol, (long)t);
			}
			if (t == at[k] + look - 1) {
				fresh.reset();
				++k;
				event("comparisons with fresh objects");
			}
		}
	}
	event("inputs", len);
	if (!k)
		inconclusive("nowhere compared");
}

#define LONG(TYPE, OUT, feed, memory, tol, setup) do { \
	typedef TYPE Dut; \
	forget<Dut>(#TYPE, BITS, [&](Dut &dut, int64_t t) -> OUT { (void)dut; (void)t; return feed; }, (OUT *)0, \
		[&]() { std::unique_ptr<Dut> p(new Dut); Dut &dut = *p; (void)dut; setup; return p; }, memory, tol, rng); } while (0)
#define COMMA ,

template <typename T>
static void all(Rng &rng)
{
	typedef DSP::Complex<T> C;
	const int BITS = 8 * sizeof(T);
	const LD u = eps<T>();
	Stream s{rng.next()};
	auto x = [&](int64_t t) { return T(s.sym(t)); };
	auto z = [&](int64_t t) { return C(T(s.sym(2 * t)), T(s.sym(2 * t + 1))); };
	// a carrier: never zero
	auto w = [&](int64_t t) { LD p = 6.283L * s.sym(t), a = 0.6L + 0.4L * s.sym(t + (1 << 30)); return C(T(a * std::cos(p)), T(a * std::sin(p))); };
	// sums of these are exact
	auto i = [&](int64_t t) { return T(s.in(t, -100, 100)); };
	LONG(DSP::Delay<T COMMA 7>, T, dut(i(t)), 7, 0, );
	LONG(DSP::Delay<C COMMA 300>, C, dut(z(t)), 300, 0, );
	LONG(DSP::BipBuffer<T COMMA 11>, T, dut(i(t))[t % 11], 11, 0, );
	LONG(DSP::MovMin<T COMMA 9>, T, dut(i(t)), 9, 0, );
	LONG(DSP::MovMax<T COMMA 40>, T, dut(i(t)), 40, 0, );
	LONG(DSP::SMA1<T COMMA T COMMA 5>, T, dut(i(t)), 5, 200 * u, );
	LONG(DSP::SMA2<T COMMA T COMMA 13>, T, dut(i(t)), 13, 200 * u, );
	LONG(DSP::SMA2<C COMMA T COMMA 8 COMMA false>, C, dut(C(i(2 * t), i(2 * t + 1))), 8, 0, );
	LONG(DSP::SMA3<T COMMA T COMMA 21>, T, dut(i(t)), 21, 200 * u, );
	LONG(DSP::SMA4<T COMMA T COMMA 33>, T, dut(i(t)), 33, 200 * u, );
	LONG(DSP::SMA4<C COMMA T COMMA 6>, C, dut(z(t)), 6, 8 * u, );
	LONG(DSP::EMA<T COMMA T>, T, dut(x(t)), 1000, 100 * u, dut.samples(25));
	LONG(DSP::EMA<C COMMA T>, C, dut(z(t)), 1000, 400 * u, dut.cutoff(1, 100));
	LONG(DSP::EMACascade<T COMMA T COMMA 3>, T, dut(x(t)), 1500, 1000 * u, dut.cutoff(1, 100));
	LONG(DSP::Biquad<T COMMA T>, T, dut(x(t)), 2000, 4000 * u, dut.lowpass(3, 100));
	LONG(DSP::Biquad<C COMMA T>, C, dut(z(t)), 2000, 4000 * u, dut.bandpass(10, 100, 6));
	LONG(DSP::Biquad<T COMMA T>, T, dut(x(t)), 2000, 4000 * u, dut.notch(20, 100, 6));
	LONG(DSP::Biquad<T COMMA T>, T, dut(x(t)), 2000, 4000 * u, dut.allpass(30, 100, 3));
	LONG(DSP::BiquadCascade<T COMMA T COMMA 3>, T, dut(x(t)), 3000, 10000 * u, dut.highpass(5, 100));
	LONG(DSP::BlockDC<T COMMA T>, T, dut(x(t)), 2500, 400 * u, dut.samples(50));
	LONG(DSP::NormalizeSine<T>, T, dut(x(t) + T(s.in(t, -10, 10)) / 10), 3000, 4000 * u, dut.samples(50));
	LONG(DSP::NormalizeIQ<C>, C, dut(w(t)), 3000, 4000 * u, dut.samples(40));
	LONG(DSP::Hilbert<C COMMA 33>, C, dut(x(t)), 33, 20 * u, );
	LONG(DSP::CDC<C COMMA 29>, C, dut(x(2 * t) COMMA x(2 * t + 1)), 60, 20 * u, );
	LONG(DSP::FMD1<C>, T, std::cos(3 * dut(w(t))), 2, 40 * u, dut.bandwidth(T(1) / 3));
	LONG(DSP::FMD2<C>, T, std::cos(3 * dut(w(t))), 2, 40 * u, dut.bandwidth(T(1) / 3));
	LONG(DSP::FMD3<C>, T, std::cos(3 * dut(w(t))), 2, 40 * u, dut.bandwidth(T(1) / 3));
	LONG(DSP::FMD4<C>, T, dut(w(t)), 2, 100 * u, dut.bandwidth(T(0.5)));
	LONG(DSP::FMD5<C>, T, dut(w(t)), 4, 100 * u, dut.bandwidth(T(0.5)));
	LONG(DSP::AMD1<C>, T, dut(w(t)), 2500, 2000 * u, dut.agc(T(0.05) COMMA T(0.03)));
	LONG(DSP::SchmittTrigger<T>, T, dut(x(t)), 2000, 0, );
	LONG(DSP::FallingEdgeTrigger, T, dut(x(t) > 0), 2, 0, );
	LONG(DSP::RisingEdgeTrigger, T, dut(x(t) > 0), 2, 0, );
	LONG(DSP::Differentiator<T>, T, dut(x(t)), 1, 2 * u, );
	// these never forget
	int64_t len = length();
	{
		run(true, "Integrator<%s> %lld inputs", name<T>(), (long long)len);
		DSP::Integrator<T> sum;
		DSP::Kahan<T> kahan;
		int64_t want = 0;
		LD bias = 0;
		for (int64_t t = 0; t < len; ++t) {
			// stays where integers are exact
			int64_t v = s.in(t, -100, 100);
			if (std::abs(want + v) > 4000000)
				v = 0;
			want += v;
			NEAR("long.integral", sum(T(v)), want, 0, (long)t);
			T part = T(1) / 3;
			bias = (t + 1) * (LD)part;
			LD k = kahan(part);
			if (t % 1000 == 0)
				NEAR("long.compensated", k, bias, 2 * u * bias, (long)t);
		}
	}
	for (int c = 0; c < 4; ++c) {
		T diff = T(c == 0 ? 0.1 : c == 1 ? -0.1 : c == 2 ? 37 : -23), rate = 8000;
		run(true, "Resampler2<%s> diff=%g %lld inputs", name<T>(), (double)diff, (long long)len);
		DSP::Resampler2<T, T, 8, 4> dut(rate, T(3600), 2);
		int64_t count = 0, most = cases(300000, 2000000);
		LD worst = 0;
		for (int64_t t = 0; t < most; ++t) {
			T out[4] = { 0 };
			int n = dut(out, T(1), diff);
			count += n;
			LD want = (t + 1) / (1 - (LD)diff / rate);
			LE("long.resampled", std::abs(count - want), 1.1L + 2 * u * t, (long)t, c);
			if (t > 20)
				for (int k = 0; k < n; ++k)
					worst = std::max(worst, std::abs((LD)out[k] - 1));
		}
		// a constant stays one, but for the ripple of the filter
		LE("long.resampled.constant", worst, 0.1L, c);
		event("inputs", most);
	}
	{
		// an unknown system found stays found
		const int SIZE = 6;
		run(true, "NLMS<%s> and NCLMS %lld inputs", name<T>(), (long long)len);
		DSP::NLMS<T, SIZE> real;
		DSP::NCLMS<C, SIZE> cplx;
		T h[SIZE];
		C g[SIZE];
		for (int k = 0; k < SIZE; ++k) {
			h[k] = T(rng.sym());
			g[k] = C(T(rng.sym()), T(rng.sym()));
		}
		int64_t most = cases(300000, 2000000);
		for (int64_t t = 0; t < most; ++t) {
			LD want = 0;
			std::complex<LD> wants = 0;
			for (int k = 0; k < SIZE; ++k)
				if (t >= k) {
					C v = z(t - k);
					want += (LD)h[k] * x(t - k);
					wants += std::complex<LD>(g[k].real(), g[k].imag()) * std::complex<LD>(v.real(), v.imag());
				}
			LD e = real(x(t), T(want), T(0.5));
			C es = cplx(z(t), C(T(wants.real()), T(wants.imag())), T(0.5));
			if (t > 20000) {
				NEAR("long.identified", e, 0, 200 * u, (long)t);
				NEAR("long.identified", es.real(), 0, 200 * u, (long)t);
				NEAR("long.identified", es.imag(), 0, 200 * u, (long)t);
			}
		}
		event("inputs", most);
	}
}

// whole numbers, and what has to be emptied
static void exact(Rng &rng)
{
	const int BITS = 32;
	Stream s{rng.next()};
	auto i = [&](int64_t t) { return (int)s.in(t, -1000, 1000); };
	LONG(DSP::Delay<int COMMA 1>, LD, dut(i(t)), 1, 0, );
	LONG(DSP::BipBuffer<int COMMA 1>, LD, *dut(i(t)), 1, 0, );
	LONG(DSP::MovMin<int COMMA 1>, LD, dut(i(t)), 1, 0, );
	LONG(DSP::MovMax<int COMMA 257>, LD, dut(i(t)), 257, 0, );
	LONG(DSP::SMA1<int COMMA int COMMA 4>, LD, dut(i(t)), 4, 0, );
	LONG(DSP::SMA2<int COMMA int COMMA 100>, LD, dut(i(t)), 100, 0, );
	LONG(DSP::SMA4<int COMMA int COMMA 63>, LD, dut(i(t)), 63, 0, );
	LONG(DSP::Differentiator<int>, LD, dut(i(t)), 1, 0, );
	int64_t len = length();
	run(true, "Deque and Stack %lld operations", (long long)len);
	DSP::Deque<int, 7> deque;
	DSP::Stack<int, 7> stack;
	std::deque<int> d;
	std::vector<int> v;
	for (int64_t t = 0; t < len; ++t) {
		int op = (int)rng.in(0, 3), val = i(t);
		if (op == 0 && d.size() < 7) {
			deque.push_back(val);
			d.push_back(val);
		} else if (op == 1 && d.size() < 7) {
			deque.push_front(val);
			d.push_front(val);
		} else if (op == 2 && !d.empty()) {
			deque.pop_back();
			d.pop_back();
		} else if (op == 3 && !d.empty()) {
			deque.pop_front();
			d.pop_front();
		}
		EQ("long.deque", deque.size(), (int)d.size(), (long)t);
		if (!d.empty()) {
			EQ("long.deque", deque.back(), d.back(), (long)t);
			EQ("long.deque", deque.front(), d.front(), (long)t);
		}
		if (op < 2 && v.size() < 7) {
			stack.push(val);
			v.push_back(val);
		} else if (!v.empty()) {
			stack.pop();
			v.pop_back();
		}
		EQ("long.stack", stack.size(), (int)v.size(), (long)t);
		if (!v.empty()) {
			EQ("long.stack", stack.top(), v.back(), (long)t);
			EQ("long.stack", stack.first(), v.front(), (long)t);
		}
	}
	event("operations", len);
}

void workload()
{
	Rng rng(44);
	all<float>(rng);
	all<double>(rng);
	exact(rng);
}
