// C09: moving averages
#include "mon.hh"
#include "complex.hh"
#include "sma.hh"

using namespace mon;

// raw: divided = false
template <typename DUT, int NUM>
static void integers(Rng &rng, const char *type, bool norm)
{
	for (int c = 0; c < cases(4, 40); ++c) {
		int len = (int)rng.in(1, 6 * NUM + 20), lim = rng.one_in(2) ? 10 : 1000000;
		run(len > NUM, "%s<int,%d> norm=%d len=%d lim=%d case %d", type, NUM, norm, len, lim, c);
		Box<DUT> dut((int)rng.in(0, 255));
		std::vector<int> past(NUM, 0);
		long long sum = 0;
		for (int t = 0; t < len; ++t) {
			int x = rng.one_in(3) ? lim : (int)rng.in(-lim, lim);
			past.push_back(x);
			sum += x - past[past.size() - 1 - NUM];
			EQ("sma.integer", (*dut)(x), norm ? sum / NUM : sum, t, NUM);
		}
		event("integer averages", len);
	}
}

static LD re(float v) { return v; }
static LD re(double v) { return v; }
static LD im(float) { return 0; }
static LD im(double) { return 0; }
template <typename V> static LD re(DSP::Complex<V> v) { return v.real(); }
template <typename V> static LD im(DSP::Complex<V> v) { return v.imag(); }
template <typename T> struct Make { typedef T V; static T get(LD a, LD) { return T(a); } };
template <typename U> struct Make<DSP::Complex<U>> { typedef U V; static DSP::Complex<U> get(LD a, LD b) { return DSP::Complex<U>(a, b); } };

// kind of error that may remain: 0 none beyond the window (no drift),
// 1 compensated running sum, 2 running sum
template <typename T, typename DUT, int NUM>
static void reals(Rng &rng, const char *type, bool norm, int drift, int signal, int len)
{
	typedef typename Make<T>::V V;
	static const char *signals[] = { "noise", "offset", "bursts", "ramp", "tiny after huge", "crumbs" };
	Hash h;
	h << signal << len << NUM << drift << norm << rng.s;
	label("%s<%s,%d> norm=%d %s len=%d", type, sizeof(T) == sizeof(V) ? name<V>() : "complex", NUM, norm, signals[signal], len);
	tick(h.h, len > NUM);
	Box<DUT> dut((int)rng.in(0, 255));
	std::vector<LD> pr(NUM, 0), pi(NUM, 0);
	LD peak = 0, all = 0, run = 0;
	for (int t = 0; t < len; ++t) {
		LD a, b = rng.sym();
		switch (signal) {
		case 0: a = rng.sym(); break;
		case 1: a = 1000 + rng.u01(); break;
		case 2: a = t / (3 * NUM) % 2 ? rng.sym() * 1e-3L : rng.sym() * 1e5L; break;
		case 3: a = t * 0.01L; break;
		case 4: a = t < 2 * NUM ? 1e6L * (1 + rng.u01()) : 1e-3L * (1 + rng.u01()); break;
		// crumbs arrive when a boulder leaves, and leave in two steps
		default: a = (t / NUM + t % NUM) % 3 ? ((t / NUM + t % NUM) % 3) * 0.1L * eps<V>() : 1;
		}
		T x = Make<T>::get(a, b);
		pr.push_back(re(x));
		pi.push_back(im(x));
		bool look = t < 3 * NUM || t % 61 == 0 || t > len - 30;
		LD sr = 0, si = 0, mag = 0;
		for (int i = 0; look && i < NUM; ++i) {
			sr += pr[pr.size() - 1 - i];
			si += pi[pi.size() - 1 - i];
			mag += std::abs(pr[pr.size() - 1 - i]) + std::abs(pi[pi.size() - 1 - i]);
		}
		all += std::abs(re(x)) + std::abs(im(x));
		run += std::abs(re(x)) + std::abs(im(x)) - std::abs(pr[pr.size() - 1 - NUM]) - std::abs(pi[pi.size() - 1 - NUM]);
		if (run > peak)
			peak = run;
		if (mag > peak)
			peak = mag;
		T y = (*dut)(x);
		LD scale = norm ? NUM : 1, tol;
		if (drift == 0)
			tol = eps<V>() * (2 + NUM / 8.L) * mag + 1e-36L;
		else if (drift == 1)
			tol = eps<V>() * (signal == 1 || signal == 5 ? 4 * peak : signal == 0 ? 4 * peak + 2 * std::sqrt((LD)t) : 2 * peak + 2 * all);
		else
			tol = eps<V>() * (3 + 2 * t) * peak;
		if (look) {
			NEAR("sma.value", re(y), sr / scale, tol / scale, t, NUM);
			NEAR("sma.value", im(y), si / scale, tol / scale, t, NUM);
		}
	}
	event("averages", len);
}

template <typename T, int NUM>
static void deviation(Rng &rng)
{
	typedef typename Make<T>::V V;
	for (int c = 0; c < cases(5, 50); ++c) {
		int len = (int)rng.in(1, 3 * NUM + 3);
		run(len > NUM, "SMA1::abs_dev<%s,%d> len=%d case %d", sizeof(T) == sizeof(V) ? name<V>() : "complex", NUM, len, c);
		Box<DSP::SMA1<T, V, NUM>> dut((int)rng.in(0, 255));
		std::vector<T> past(NUM, T(0));
		LD scale = std::abs(rng.loguni(1e-15, 1e15));
		NEAR("abs_dev.silence", dut->abs_dev(), 0, 0);
		for (int t = 0; t < len; ++t) {
			past.push_back(Make<T>::get(scale * rng.sym(), scale * rng.sym()));
			(*dut)(past.back());
			LD ar = 0, ai = 0, dev = 0;
			for (int i = 0; i < NUM; ++i) {
				ar += re(past[past.size() - 1 - i]) / NUM;
				ai += im(past[past.size() - 1 - i]) / NUM;
			}
			for (int i = 0; i < NUM; ++i)
				dev += std::hypot(re(past[past.size() - 1 - i]) - ar, im(past[past.size() - 1 - i]) - ai) / NUM;
			NEAR("abs_dev.value", dut->abs_dev(), dev, eps<V>() * (4 + NUM / 4.L) * scale, t, NUM);
		}
		event("deviations", len);
	}
}

template <typename T, int NUM>
static void floats(Rng &rng)
{
	typedef typename Make<T>::V V;
	for (int signal = 0; signal < 6; ++signal) {
		int len = (int)rng.in(3 * NUM, 8 * NUM + 100);
		reals<T, DSP::SMA1<T, V, NUM>, NUM>(rng, "SMA1", true, 0, signal, len);
		reals<T, DSP::SMA2<T, V, NUM>, NUM>(rng, "SMA2", true, 2, signal, len);
		reals<T, DSP::SMA2<T, V, NUM, false>, NUM>(rng, "SMA2", false, 2, signal, len);
		reals<T, DSP::SMA4<T, V, NUM>, NUM>(rng, "SMA4", true, 0, signal, len);
		reals<T, DSP::SMA4<T, V, NUM, false>, NUM>(rng, "SMA4", false, 0, signal, len);
	}
	deviation<T, NUM>(rng);
}

template <typename T, int NUM>
static void compensated(Rng &rng)
{
	for (int signal = 0; signal < 6; ++signal) {
		int len = signal <= 1 || signal == 5 ? (int)cases(signal ? 20000 : 200000, 300000) : (int)rng.in(3 * NUM, 8 * NUM + 100);
		reals<T, DSP::SMA3<T, T, NUM>, NUM>(rng, "SMA3", true, 1, signal, len);
		reals<T, DSP::SMA3<T, T, NUM, false>, NUM>(rng, "SMA3", false, 1, signal, len);
	}
}

template <int... NUM>
static void all_integers(Rng &rng)
{
	int d[] = { (
		integers<DSP::SMA1<int, int, NUM>, NUM>(rng, "SMA1", true),
		integers<DSP::SMA2<int, int, NUM>, NUM>(rng, "SMA2", true),
		integers<DSP::SMA2<int, int, NUM, false>, NUM>(rng, "SMA2", false),
		integers<DSP::SMA4<int, int, NUM>, NUM>(rng, "SMA4", true),
		integers<DSP::SMA4<int, int, NUM, false>, NUM>(rng, "SMA4", false), 0)... };
	(void)d;
}

template <typename T, int... NUM>
static void all_floats(Rng &rng)
{
	int d[] = { (floats<T, NUM>(rng), 0)... };
	(void)d;
}

template <typename T, int... NUM>
static void all_compensated(Rng &rng)
{
	int d[] = { (compensated<T, NUM>(rng), 0)... };
	(void)d;
}

// more samples than a 16 bit index can address
template <typename DUT, int NUM>
static void large(Rng &rng, const char *type)
{
	int len = 2 * NUM + (int)rng.in(1, NUM);
	run(true, "%s<int,%d> len=%d", type, NUM, len);
	Box<DUT> dut((int)rng.in(0, 255));
	std::vector<int> past(NUM, 0);
	long long sum = 0;
	for (int t = 0; t < len; ++t) {
		past.push_back((int)rng.in(-20000, 20000));
		sum += past.back() - past[t];
		EQ("sma.large", (*dut)(past.back()), sum, t, NUM);
	}
	event("integer averages", len);
}

void workload()
{
	Rng rng(9);
	large<DSP::SMA2<int, int, 40000, false>, 40000>(rng, "SMA2");
	large<DSP::SMA2<int, int, 70000, false>, 70000>(rng, "SMA2");
	large<DSP::SMA4<int, int, 40000, false>, 40000>(rng, "SMA4");
	large<DSP::SMA4<int, int, 70000, false>, 70000>(rng, "SMA4");
	all_integers<1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17, 31, 33, 100, 128>(rng);
	for (int i = 0; i < cases(1, 10); ++i) {
		all_floats<float, 1, 2, 3, 5, 8, 13, 64, 100>(rng);
		all_floats<double, 1, 2, 3, 4, 7, 33>(rng);
		all_floats<DSP::Complex<float>, 1, 2, 3, 10>(rng);
		all_compensated<float, 1, 2, 3, 5, 16, 50, 100>(rng);
		all_compensated<double, 2, 7, 32>(rng);
	}
}
