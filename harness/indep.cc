// C40: objects do not influence each other and depend on nothing but their inputs
#include <atomic>
#include <mutex>
#include <string>
#include <unistd.h>
#include <cerrno>
#include <sys/wait.h>
#include <thread>
#include "file.hh"
#include "complex.hh"
#include "const.hh"
#include "utils.hh"
#include "fft.hh"
#include "fdzp.hh"
#include "kahan.hh"
#include "sma.hh"
#include "swa.hh"
#include "movext.hh"
#include "delay.hh"
#include "bip_buffer.hh"
#include "deque.hh"
#include "stack.hh"
#include "quick.hh"
#include "theil_sen.hh"
#include "repeated_median.hh"
#include "regression.hh"
#include "coeffs.hh"
#include "window.hh"
#include "filter.hh"
#include "biquad.hh"
#include "ema.hh"
#include "normalize.hh"
#include "phasor.hh"
#include "hilbert.hh"
#include "cdc.hh"
#include "fmd.hh"
#include "amd.hh"
#include "trigger.hh"
#include "calculus.hh"
#include "spline.hh"
#include "resampler.hh"
#include "lms.hh"
#include "atan2.hh"
#include "cordic.hh"
#include "decibel.hh"
#include "exp.hh"
#include "unit_circle.hh"
#include "wav.hh"
#include "netpbm.hh"

using namespace mon;

typedef float F;
typedef DSP::Complex<F> C;
typedef std::vector<uint64_t> Trace;

static F real(Rng &r) { return F(r.sym()); }
static C cplx(Rng &r) { F a = real(r), b = real(r); return C(a, b); }

struct Memory
{
	void *mem;
	Memory(size_t size, int pattern) : mem(aligned_alloc(64, (size + 63) / 64 * 64))
	{
		memset(mem, pattern, (size + 63) / 64 * 64);
	}
	~Memory() { free(mem); }
	Memory(const Memory &) = delete;
};

// all uses of one component, type erased
struct Component
{
	const char *name;
	int copies;
	std::function<Trace (int pattern, uint64_t tag, int len)> alone;
	std::function<void (int pattern, uint64_t a, uint64_t b, int len, Rng &, Trace &, Trace &)> pair;
	std::function<void (int how, uint64_t a, uint64_t b, int len, int at, Trace &, Trace &)> copy;
	// the first steps with the one input, the others with the other
	std::function<Trace (uint64_t a, uint64_t b, int len, int at)> spliced;
};

static std::vector<Component> components;

template <typename DUT, typename MAKE, typename STEP>
static void plain(Component &p, MAKE make, STEP step)
{
	p.alone = [=](int pattern, uint64_t tag, int len) {
		Memory m(sizeof(DUT), pattern);
		Rng c(~tag);
		DUT *d = make(m.mem, c);
		Rng r(tag);
		Trace t;
		for (int i = 0; i < len; ++i) {
			Hash h;
			step(*d, r, h);
			t.push_back(h.h);
		}
		d->~DUT();
		return t;
	};
	p.pair = [=](int pattern, uint64_t a, uint64_t b, int len, Rng &order, Trace &ta, Trace &tb) {
		Memory ma(sizeof(DUT), pattern), mb(sizeof(DUT), ~pattern);
		Rng ca(~a), cb(~b);
		DUT *da = make(ma.mem, ca), *db = make(mb.mem, cb);
		Rng ra(a), rb(b);
		while ((int)ta.size() < len || (int)tb.size() < len) {
			Hash h;
			if (order.next() & 1) {
				if ((int)ta.size() < len) {
					step(*da, ra, h);
					ta.push_back(h.h);
				}
			} else if ((int)tb.size() < len) {
				step(*db, rb, h);
				tb.push_back(h.h);
			}
		}
		da->~DUT();
		db->~DUT();
	};
	p.spliced = [=](uint64_t a, uint64_t b, int len, int at) {
		Memory m(sizeof(DUT), 0x33);
		Rng c(~a);
		DUT *d = make(m.mem, c);
		Rng ra(a), rb(b);
		Trace t;
		for (int i = 0; i < len; ++i) {
			Hash h;
			step(*d, i < at ? ra : rb, h);
			t.push_back(h.h);
		}
		d->~DUT();
		return t;
	};
}

template <typename DUT, typename MAKE, typename STEP>
static void copied(Component &p, MAKE make, STEP step)
{
	p.copies = 1;
	p.copy = [=](int how, uint64_t a, uint64_t b, int len, int at, Trace &ta, Trace &tb) {
		Memory ma(sizeof(DUT), 0), mb(sizeof(DUT), 0x77);
		Rng ca(~a), cb(~b);
		DUT *da = make(ma.mem, ca), *db = nullptr;
		Rng ra(a), rb(b);
		if (how) {
			// assigned over one in use, of another configuration
			db = make(mb.mem, cb);
			Rng other(a + b);
			for (int i = 0; i < at; ++i) {
				Hash h;
				step(*db, other, h);
			}
		}
		for (int i = 0; i < len; ++i) {
			if (i == at) {
				if (how)
					*db = *da;
				else
					db = new (mb.mem) DUT(*da);
			}
			Hash h, g;
			if (i < at) {
				step(*da, ra, h);
				g = h;
			} else {
				step(*db, rb, g);
				step(*da, ra, h);
			}
			ta.push_back(h.h);
			tb.push_back(g.h);
		}
		if (db)
			db->~DUT();
		da->~DUT();
	};
}

template <typename DUT, typename SETUP, typename STEP>
static void add(const char *name, SETUP setup, STEP step)
{
	Component p = { name, 0 };
	auto make = [=](void *mem, Rng &c) {
		DUT *d = new (mem) DUT;
		setup(*d, c);
		return d;
	};
	plain<DUT>(p, make, step);
	copied<DUT>(p, make, step);
	components.push_back(p);
}

template <typename DUT, typename MAKE, typename STEP>
static void built(const char *name, MAKE make, STEP step)
{
	Component p = { name, 0 };
	plain<DUT>(p, make, step);
	copied<DUT>(p, make, step);
	components.push_back(p);
}

static void nothing(...) {}
#define NONE [](auto &, Rng &) {}

template <int BINS, int SIGN>
static void fft(const char *name)
{
	add<DSP::FastFourierTransform<BINS, C, SIGN>>(name, NONE, [](auto &d, Rng &r, Hash &h) {
		C in[BINS], out[BINS];
		for (auto &v : in)
			v = cplx(r);
		d(out, in);
		for (auto v : out)
			h << v;
	});
}

template <typename DUT>
static void filter(const char *name, std::function<void (DUT &, Rng &)> setup)
{
	add<DUT>(name, [=](auto &d, Rng &c) { setup(d, c); }, [](auto &d, Rng &r, Hash &h) {
		for (int i = 0; i < 7; ++i)
			h << d(real(r));
	});
}

template <typename DUT>
static void cfilter(const char *name, std::function<void (DUT &, Rng &)> setup)
{
	add<DUT>(name, [=](auto &d, Rng &c) { setup(d, c); }, [](auto &d, Rng &r, Hash &h) {
		for (int i = 0; i < 7; ++i)
			h << d(cplx(r));
	});
}

template <typename DUT>
static void fit(const char *name)
{
	add<DUT>(name, NONE, [](auto &d, Rng &r, Hash &h) {
		F x[21], y[21];
		for (int i = 0; i < 21; ++i) {
			x[i] = F(i) + real(r) / 4;
			y[i] = 2 * x[i] + real(r);
		}
		d.compute(x, y, 5 + (int)(r.next() % 17));
		h << d.slope() << d.yint() << d(F(3));
	});
}

struct Nothing {};

static void collect()
{
	fft<16, -1>("FastFourierTransform<16>");
	fft<45, 1>("FastFourierTransform<45>");
	fft<62, -1>("FastFourierTransform<62>");
	add<DSP::RealToHalfComplexTransform<48, C>>("RealToHalfComplexTransform", NONE, [](auto &d, Rng &r, Hash &h) {
		F in[48];
		C out[25];
		for (auto &v : in)
			v = real(r);
		d(out, in);
		for (auto v : out)
			h << v;
	});
	add<DSP::FDZP<24, 16, C>>("FDZP", NONE, [](auto &d, Rng &r, Hash &h) {
		C in[16], out[24];
		for (auto &v : in)
			v = cplx(r);
		d(out, in);
		for (auto v : out)
			h << v;
	});
	built<DSP::Kahan<F>>("Kahan", [](void *m, Rng &c) { return new (m) DSP::Kahan<F>(real(c)); }, [](auto &d, Rng &r, Hash &h) {
		for (int i = 0; i < 7; ++i)
			h << d(real(r));
	});
	filter<DSP::SMA1<F, F, 9>>("SMA1", [](auto &, Rng &) {});
	filter<DSP::SMA2<F, F, 9>>("SMA2", [](auto &, Rng &) {});
	filter<DSP::SMA3<F, F, 9>>("SMA3", [](auto &, Rng &) {});
	filter<DSP::SMA4<F, F, 9>>("SMA4", [](auto &, Rng &) {});
	cfilter<DSP::SMA4<C, F, 10>>("SMA4 complex", [](auto &, Rng &) {});
	built<DSP::SWA<F, std::plus<F>, 11>>("SWA", [](void *m, Rng &) { return new (m) DSP::SWA<F, std::plus<F>, 11>(0); }, [](auto &d, Rng &r, Hash &h) {
		for (int i = 0; i < 7; ++i)
			h << d(real(r));
	});
	filter<DSP::MovMin<F, 6>>("MovMin", [](auto &, Rng &) {});
	filter<DSP::MovMax<F, 6>>("MovMax", [](auto &, Rng &) {});
	built<DSP::Delay<F, 5>>("Delay", [](void *m, Rng &c) { return new (m) DSP::Delay<F, 5>(real(c)); }, [](auto &d, Rng &r, Hash &h) {
		for (int i = 0; i < 7; ++i)
			h << d(real(r));
	});
	add<DSP::BipBuffer<F, 6>>("BipBuffer", NONE, [](auto &d, Rng &r, Hash &h) {
		const F *p = d(real(r));
		for (int i = 0; i < 6; ++i)
			h << p[i];
	});
	add<DSP::Deque<int, 8>>("Deque", NONE, [](auto &d, Rng &r, Hash &h) {
		int v = (int)r.next(), k = (int)(r.next() & 3);
		if (k == 0 && !d.full())
			d.push_back(v);
		else if (k == 1 && !d.full())
			d.push_front(v);
		else if (k == 2 && !d.empty())
			d.pop_back();
		else if (!d.empty())
			d.pop_front();
		h << d.size();
		if (!d.empty())
			h << d.front() << d.back();
	});
	add<DSP::Stack<int, 8>>("Stack", NONE, [](auto &d, Rng &r, Hash &h) {
		int v = (int)r.next();
		if (r.next() % 3 && !d.full())
			d.push(v);
		else if (!d.empty())
			d.pop();
		h << d.size();
		if (!d.empty())
			h << d.top() << d.first();
	});
	fit<DSP::TheilSenEstimator<F, 21>>("TheilSenEstimator");
	fit<DSP::RepeatedMedianEstimator<F, 21>>("RepeatedMedianEstimator");
	fit<DSP::RepeatedMedianEstimator2<F, 21>>("RepeatedMedianEstimator2");
	filter<DSP::Biquad<F, F>>("Biquad lowpass", [](auto &d, Rng &c) { int k = (int)c.in(1, 9); d.lowpass(k, 20, F(c.uni(0.5, 3))); });
	cfilter<DSP::Biquad<C, F>>("Biquad bandpass", [](auto &d, Rng &c) { d.bandpass((int)c.in(1, 9), 20, F(c.uni(0.5, 3))); });
	filter<DSP::BiquadCascade<F, F, 3>>("BiquadCascade", [](auto &d, Rng &c) { d.highpass((int)c.in(1, 9), 20); });
	filter<DSP::EMA<F, F>>("EMA", [](auto &d, Rng &c) { d.cutoff((int)c.in(1, 9), 20); });
	cfilter<DSP::EMACascade<C, F, 3>>("EMACascade", [](auto &d, Rng &c) { d.cutoff((int)c.in(1, 30), 200); });
	cfilter<DSP::BlockDC<C, F>>("BlockDC", [](auto &d, Rng &c) { d.samples((int)c.in(2, 40)); });
	filter<DSP::NormalizeSine<F>>("NormalizeSine", [](auto &d, Rng &c) { d.samples((int)c.in(2, 40)); });
	cfilter<DSP::NormalizeIQ<C>>("NormalizeIQ", [](auto &d, Rng &c) { d.samples((int)c.in(2, 40)); });
	add<DSP::Phasor<C>>("Phasor", NONE, [](auto &d, Rng &r, Hash &h) {
		d.freq(real(r));
		h << d() << d() << d();
	});
	built<DSP::Hilbert<C, 17>>("Hilbert", [](void *m, Rng &c) { return new (m) DSP::Hilbert<C, 17>(F(c.uni(1, 3))); }, [](auto &d, Rng &r, Hash &h) {
		h << d(real(r));
	});
	built<DSP::CDC<C, 17>>("CDC", [](void *m, Rng &c) { return new (m) DSP::CDC<C, 17>(F(c.uni(1, 3))); }, [](auto &d, Rng &r, Hash &h) {
		F a = real(r), b = real(r);
		h << d(a, b);
	});
	cfilter<DSP::FMD1<C>>("FMD1", [](auto &d, Rng &c) { d.bandwidth(F(c.uni(0.1, 2))); });
	cfilter<DSP::FMD2<C>>("FMD2", [](auto &d, Rng &c) { d.bandwidth(F(c.uni(0.1, 2))); });
	cfilter<DSP::FMD3<C>>("FMD3", [](auto &d, Rng &c) { d.bandwidth(F(c.uni(0.1, 2))); });
	cfilter<DSP::FMD4<C>>("FMD4", [](auto &d, Rng &c) { d.bandwidth(F(c.uni(0.1, 2))); });
	cfilter<DSP::FMD5<C>>("FMD5", [](auto &d, Rng &c) { d.bandwidth(F(c.uni(0.1, 2))); });
	cfilter<DSP::AMD1<C>>("AMD1", [](auto &d, Rng &c) { d.agc(F(c.uni(0.3, 0.9)), F(c.uni(0.01, 0.3))); d.index(F(c.uni(0.2, 1))); });
	built<DSP::SchmittTrigger<F>>("SchmittTrigger", [](void *m, Rng &c) { return new (m) DSP::SchmittTrigger<F>(F(c.uni(0.1, 0.6))); }, [](auto &d, Rng &r, Hash &h) {
		for (int i = 0; i < 7; ++i)
			h << d(real(r));
	});
	add<DSP::FallingEdgeTrigger>("FallingEdgeTrigger", NONE, [](auto &d, Rng &r, Hash &h) { h << d(r.next() & 1); });
	add<DSP::RisingEdgeTrigger>("RisingEdgeTrigger", NONE, [](auto &d, Rng &r, Hash &h) { h << d(r.next() & 1); });
	built<DSP::Integrator<F>>("Integrator", [](void *m, Rng &c) { return new (m) DSP::Integrator<F>(real(c)); }, [](auto &d, Rng &r, Hash &h) {
		for (int i = 0; i < 7; ++i)
			h << d(real(r));
	});
	built<DSP::Differentiator<F>>("Differentiator", [](void *m, Rng &c) { return new (m) DSP::Differentiator<F>(real(c)); }, [](auto &d, Rng &r, Hash &h) {
		for (int i = 0; i < 7; ++i)
			h << d(real(r));
	});
	add<DSP::UniformNaturalCubicSpline<9, F, F>>("UniformNaturalCubicSpline", NONE, [](auto &d, Rng &r, Hash &h) {
		F y[9];
		for (auto &v : y)
			v = real(r);
		d = DSP::UniformNaturalCubicSpline<9, F, F>(y, real(r), F(1.5) + real(r));
		for (int i = 0; i < 5; ++i)
			h << d(F(4 + 5 * real(r)));
	});
	built<DSP::Resampler<F, 9, 4>>("Resampler", [](void *m, Rng &c) { return new (m) DSP::Resampler<F, 9, 4>(8000, F(c.uni(2000, 3900)), F(c.uni(1, 3))); }, [](auto &d, Rng &r, Hash &h) {
		C in[40], out[40];
		for (auto &v : in)
			v = cplx(r);
		d(out, in, F(50 * real(r)), 40);
		for (auto v : out)
			h << v;
	});
	built<DSP::Resampler2<F, C, 9, 4>>("Resampler2", [](void *m, Rng &c) { return new (m) DSP::Resampler2<F, C, 9, 4>(8000, F(c.uni(2000, 3900)), F(c.uni(1, 3))); }, [](auto &d, Rng &r, Hash &h) {
		C out[3];
		for (int i = 0; i < 9; ++i) {
			C in = cplx(r);
			int n = d(out, in, F(900));
			h << n;
			for (int k = 0; k < n; ++k)
				h << out[k];
		}
	});
	add<DSP::NLMS<F, 5>>("NLMS", NONE, [](auto &d, Rng &r, Hash &h) {
		F a = real(r), b = real(r);
		h << d(a, b, F(0.5));
	});
	add<DSP::NCLMS<C, 5>>("NCLMS", NONE, [](auto &d, Rng &r, Hash &h) {
		C a = cplx(r), b = cplx(r);
		h << d(a, b, F(0.5));
	});
	// windows and filters of several shapes
	struct Shapes
	{
		DSP::Kaiser<F> kaiser;
		DSP::Gauss<F> gauss;
		DSP::LowPass<F> low;
		DSP::HighPass<F> high;
		DSP::BandPass<F> band;
		DSP::LowPass2<F> low2;
		Shapes(Rng &c) : kaiser(F(c.uni(0.5, 3))), gauss(F(c.uni(0.2, 0.5))), low(F(c.uni(0.05, 0.45))), high(F(c.uni(0.05, 0.45))), band(F(c.uni(0.05, 0.2)), F(c.uni(0.25, 0.45))), low2((int)c.in(1, 20), 50) {}
	};
	built<Shapes>("windows and filters", [](void *m, Rng &c) { return new (m) Shapes(c); }, [](auto &d, Rng &r, Hash &h) {
		int N = 2 + (int)(r.next() % 40), n = (int)(r.next() % N);
		h << d.kaiser(n, N) << d.gauss(n, N) << d.low(n, N) << d.high(n, N) << d.band(n, N) << d.low2(n, N);
		h << DSP::Hann<F>()(n, N) << DSP::Hamming<F>()(n, N) << DSP::Lanczos<F>()(n, N) << DSP::Blackman<F>()(n, N) << DSP::Rect<F>()(n, N);
		DSP::Coeffs<15, F, true> co(&d.low, &d.kaiser);
		DSP::Coeffs<9, F, false> no(&d.low, &d.kaiser);
		for (int i = 0; i < 15; ++i)
			h << co(i) << no(i);
	});
	// functions: no state at all
	add<Nothing>("functions", NONE, [](auto &, Rng &r, Hash &h) {
		int n = (int)(r.next() % 1000), N = 1 + (int)(r.next() % 1000);
		n %= N;
		F a = real(r), b = real(r);
		h << DSP::UnitCircle<F>::cos(n, N) << DSP::UnitCircle<F>::sin(n, N);
		h << DSP::atan2(a, b) << DSP::CORDIC<short>::atan2((short)(1000 * a), (short)(1000 * b));
		h << DSP::decibel(a * a) << DSP::idecibel(10 * b) << DSP::exp10(a);
		h << DSP::HilbertTransform<F>()(n, N);
		int k[60];
		for (auto &v : k)
			v = (int)(r.next() % 100);
		h << DSP::quick_select(k, n % 60, 60);
		DSP::quick_sort(k, 60);
		for (auto v : k)
			h << v;
		F x[12], y[12];
		for (int i = 0; i < 12; ++i) {
			x[i] = F(i);
			y[i] = real(r);
		}
		DSP::SimpleLinearRegression<F> line(x, y, 12);
		h << line.slope() << line.yint();
		h << DSP::CubicHermiteSpline<F, F>::eval(x, y, F(6 + 6 * a), 12);
		h << DSP::kahan_sum(y, y + 12, F(0));
		DSP::LowPass<F> lp(F(0.2));
		DSP::Hann<F> hann;
		DSP::Coeffs<15, F, true> co(&lp, &hann);
		for (int i = 0; i < 15; ++i)
			h << co(i);
	});
	(void)nothing;
}

static std::string temp(const char *kind)
{
	static std::mutex m;
	static int n;
	std::lock_guard<std::mutex> g(m);
	char tmp[64];
	snprintf(tmp, sizeof(tmp), "%s%d", kind, n++);
	return path(tmp);
}

static Trace files(int, uint64_t tag, int len)
{
	Trace t;
	for (int i = 0; i < std::min(len, 4); ++i) {
		Rng r(tag + i);
		std::string wav = temp("w"), pnm = temp("p");
		F buf[60], got[60] = { 0 };
		for (auto &v : buf)
			v = real(r);
		Hash h;
		{
			DSP::WriteWAV<F> w(wav.c_str(), 8000, i & 1 ? 16 : 8, 2);
			DSP::WritePNM<F> p(pnm.c_str(), 5, 4);
			w.write(buf, 10);
			p.write(buf, 7);
			w.write(buf + 20, 20);
			p.write(buf + 21, 13);
		}
		DSP::ReadWAV<F> w(wav.c_str());
		DSP::ReadPNM<F> p(pnm.c_str());
		h << w.frames() << w.rate() << p.width() << p.height();
		w.read(got, 30);
		for (auto v : got)
			h << v;
		p.read(got, 20);
		for (auto v : got)
			h << v;
		h << w.good() << p.good();
		t.push_back(h.h);
		unlink(wav.c_str());
		unlink(pnm.c_str());
	}
	return t;
}

// what a component does in a process that never used anything else
static Trace fresh(std::function<Trace ()> what)
{
	int fd[2];
	if (pipe(fd))
		inconclusive("no pipe");
	pid_t pid = fork();
	if (pid < 0)
		inconclusive("no process");
	if (!pid) {
		close(fd[0]);
		Trace t = what();
		size_t size = t.size() * sizeof(t[0]), done = 0;
		while (done < size) {
			ssize_t n = write(fd[1], (const char *)t.data() + done, size - done);
			if (n <= 0)
				_exit(1);
			done += n;
		}
		_exit(0);
	}
	close(fd[1]);
	Trace t;
	uint64_t v;
	size_t have = 0;
	for (;;) {
		ssize_t n = read(fd[0], (char *)&v + have, sizeof(v) - have);
		if (n < 0 && errno == EINTR)
			continue;
		if (n <= 0)
			break;
		have += n;
		if (have == sizeof(v)) {
			t.push_back(v);
			have = 0;
		}
	}
	close(fd[0]);
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
		;
	if (status) {
		// dies here as well, with a report
		what();
		inconclusive("process died");
	}
	return t;
}

#define SAME(key, p, a, b) OK(key, (a) == (b), (long)(p))

void workload()
{
	Rng rng(40);
	collect();
	Component f = { "files", 0, files };
	components.push_back(f);
	int n = (int)components.size();
	uint64_t A = rng.next(), B = rng.next();
	int len = 60;
	std::vector<Trace> ta(n), tb(n);
	for (int i = 0; i < n; ++i) {
		run(true, "%s in a process of its own", components[i].name);
		ta[i] = fresh([&] { return components[i].alone(0, A, len); });
		tb[i] = fresh([&] { return components[i].alone(0, B, len); });
		if (ta[i].empty() || tb[i].empty())
			inconclusive("nothing came back");
		OK("independence.reacts", ta[i] != tb[i], i);
		event("processes", 2);
	}
	// everything again, in another order, in other memory
	for (int c = 0; c < cases(4, 40); ++c) {
		std::vector<int> order(n);
		for (int i = 0; i < n; ++i)
			order[i] = i;
		rng.shuffle(order.data(), n);
		for (int i : order) {
			int pattern = c == 0 ? 0xFF : c == 1 ? 0x7F : (int)rng.in(1, 255);
			run(true, "%s again over memory of %02x, round %d", components[i].name, pattern, c);
			SAME("independence.memory", i, components[i].alone(pattern, A, len), ta[i]);
			event("repetitions");
		}
	}
	// two of a kind taking turns
	for (int c = 0; c < cases(4, 40); ++c) {
		for (int i = 0; i < n; ++i) {
			if (!components[i].pair)
				continue;
			run(true, "%s taking turns, round %d", components[i].name, c);
			Trace x, y;
			components[i].pair((int)rng.in(0, 255), A, B, len, rng, x, y);
			SAME("independence.turns", i, x, ta[i]);
			SAME("independence.turns", i, y, tb[i]);
			event("pairs taking turns");
		}
	}
	// a copy goes its own way
	for (int c = 0; c < cases(6, 60); ++c) {
		for (int i = 0; i < n; ++i) {
			if (!components[i].copies)
				continue;
			int at = c == 0 ? 0 : (int)rng.in(0, len - 1), how = c & 1;
			run(true, "%s %s at %d, round %d", components[i].name, how ? "assigned" : "copied", at, c);
			Trace x, y;
			components[i].copy(how, A, B, len, at, x, y);
			SAME("independence.original", i, x, ta[i]);
			SAME("independence.copy", i, y, components[i].spliced(A, B, len, at));
			event("copies");
		}
	}
	// all of them at once in threads
	for (int c = 0; c < cases(2, 10); ++c) {
		const int T = 4;
		run(true, "%d threads, round %d", T, c);
		std::vector<std::vector<Trace>> got(T, std::vector<Trace>(n));
		std::vector<std::thread> threads;
		std::atomic<int> gate(0);
		for (int k = 0; k < T; ++k)
			threads.emplace_back([&, k] {
				for (int i = 0; i < n; ++i) {
					// everybody uses the same component at the same time
					gate.fetch_add(1, std::memory_order_relaxed);
					while (gate.load(std::memory_order_relaxed) < T * (i + 1))
						std::this_thread::yield();
					got[k][i] = components[i].alone(k, k & 1 ? B : A, len);
				}
			});
		for (auto &t : threads)
			t.join();
		for (int k = 0; k < T; ++k)
			for (int i = 0; i < n; ++i) {
				label("%s in thread %d, round %d", components[i].name, k, c);
				SAME("independence.threads", i, got[k][i], k & 1 ? tb[i] : ta[i]);
				event("runs in threads");
			}
	}
}
