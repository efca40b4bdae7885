// C11: moving minimum and maximum
#include "mon.hh"
#include "movext.hh"

using namespace mon;

static const char *signals[] = { "random", "few values", "ascending", "descending", "constant", "extremes", "saw", "spikes", "walk", "vee" };

template <typename T>
static T sample(Rng &rng, int kind, int t, int NUM, T prev)
{
	typedef std::numeric_limits<T> L;
	bool real = std::is_floating_point<T>::value;
	switch (kind) {
	case 0: return real ? T(rng.loguni(1e-30, 1e30)) : T(rng.next());
	case 1: return T(rng.in(0, 3));
	case 2: return T(t);
	case 3: return T(100 - t);
	case 4: return T(7);
	case 5: switch (rng.in(0, 5)) { case 0: return L::max(); case 1: return L::lowest(); case 2: return L::min(); case 3: return T(0); case 4: return T(1); default: return T(-1); }
	case 6: return T(t % (NUM + 1));
	case 7: return t % (NUM + (int)rng.in(0, 1)) ? T(10) : (rng.one_in(2) ? T(100) : T(0));
	case 8: return T(prev + T(rng.in(-2, 2)));
	default: return T(std::abs(t % (2 * NUM + 1) - NUM));
	}
}

template <typename T, int NUM>
static void one(Rng &rng, const char *type)
{
	for (int kind = 0; kind < 10; ++kind)
		for (int c = 0; c < cases(2, 40); ++c) {
			int len = (int)rng.in(1, 6 * NUM + 12), at = (int)rng.in(0, 2 * len);
			label("MovMin/MovMax<%s,%d> %s len=%d", type, NUM, signals[kind], len);
			Box<DSP::MovMin<T, NUM>> lo((int)rng.in(0, 255));
			Box<DSP::MovMax<T, NUM>> hi((int)rng.in(0, 255));
			std::vector<T> past;
			T prev = 50;
			Hash h;
			h << NUM << kind;
			for (int t = 0; t < len; ++t) {
				prev = sample<T>(rng, kind, t, NUM, prev);
				past.push_back(prev);
				h << prev;
				T a = prev, b = prev;
				for (int i = t; i >= 0 && i > t - NUM; --i) {
					if (past[i] < a)
						a = past[i];
					if (past[i] > b)
						b = past[i];
				}
				if (t == at) {
					DSP::MovMin<T, NUM> l2(*lo);
					DSP::MovMax<T, NUM> h2(*hi);
					NEAR("movmin.copy", l2(prev), a, 0, t, NUM);
					NEAR("movmax.copy", h2(prev), b, 0, t, NUM);
					l2(std::numeric_limits<T>::lowest());
					h2(std::numeric_limits<T>::max());
				}
				NEAR("movmin.value", (*lo)(prev), a, 0, t, NUM);
				NEAR("movmax.value", (*hi)(prev), b, 0, t, NUM);
			}
			tick(h.h, len > NUM);
			event("windows", len);
		}
}

// every word over a small alphabet
template <int NUM>
static void words()
{
	const int len = 9, base = 3;
	int total = 1;
	for (int i = 0; i < len; ++i)
		total *= base;
	label("MovMin/MovMax<int,%d> every word of %d letters", NUM, len);
	for (int w = 0; w < total; ++w) {
		DSP::MovMin<int, NUM> lo;
		DSP::MovMax<int, NUM> hi;
		int past[len], r = w;
		for (int t = 0; t < len; ++t, r /= base) {
			past[t] = r % base;
			int a = past[t], b = past[t];
			for (int i = t; i >= 0 && i > t - NUM; --i) {
				a = std::min(a, past[i]);
				b = std::max(b, past[i]);
			}
			EQ("movmin.words", lo(past[t]), a, t, w);
			EQ("movmax.words", hi(past[t]), b, t, w);
		}
		tick(mix(w * 31 + NUM), true);
	}
}

// more samples than a 16 bit index can address; references by halves of the window
template <int NUM>
static void large(Rng &rng)
{
	for (int kind = 0; kind < 3; ++kind) {
		int len = 2 * NUM + (int)rng.in(1, NUM);
		run(true, "MovMin/MovMax<int,%d> %s len=%d", NUM, kind == 0 ? "random" : kind == 1 ? "ascending" : "hills", len);
		std::vector<int> x(len), a(len), b(len), lo(len), hi(len);
		for (int t = 0; t < len; ++t)
			x[t] = kind == 0 ? (int)rng.next() : kind == 1 ? t : std::abs(t % (2 * NUM) - NUM) * 3 + (int)rng.in(0, 4);
		// blocks of NUM: running extremes from the left, then from the right
		for (int t = 0; t < len; ++t) {
			a[t] = t % NUM ? std::min(a[t - 1], x[t]) : x[t];
			b[t] = t % NUM ? std::max(b[t - 1], x[t]) : x[t];
		}
		for (int t = len - 1; t >= 0; --t) {
			lo[t] = t < len - 1 && (t + 1) % NUM ? std::min(lo[t + 1], x[t]) : x[t];
			hi[t] = t < len - 1 && (t + 1) % NUM ? std::max(hi[t + 1], x[t]) : x[t];
		}
		Box<DSP::MovMin<int, NUM>> mn((int)rng.in(0, 255));
		Box<DSP::MovMax<int, NUM>> mx((int)rng.in(0, 255));
		for (int t = 0; t < len; ++t) {
			EQ("movmin.large", (*mn)(x[t]), t < NUM ? a[t] : std::min(a[t], lo[t - NUM + 1]), t, NUM);
			EQ("movmax.large", (*mx)(x[t]), t < NUM ? b[t] : std::max(b[t], hi[t - NUM + 1]), t, NUM);
		}
		event("windows", len);
	}
}

template <typename T, int... NUM>
static void all(Rng &rng, const char *type)
{
	int d[] = { (one<T, NUM>(rng, type), 0)... };
	(void)d;
}

void workload()
{
	Rng rng(11);
	all<int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 32, 33, 100>(rng, "int");
	all<float, 1, 2, 3, 5, 10, 64>(rng, "float");
	all<double, 1, 2, 4, 25>(rng, "double");
	all<signed char, 1, 2, 3, 12>(rng, "schar");
	all<unsigned char, 1, 2, 3, 12>(rng, "uchar");
	large<40000>(rng);
	large<70000>(rng);
	words<1>();
	words<2>();
	words<3>();
	words<4>();
	words<5>();
}
