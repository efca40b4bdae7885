// C12: delay lines and contiguous history buffers reproduce the past exactly
#include "mon.hh"
#include "complex.hh"
#include "delay.hh"
#include "bip_buffer.hh"

using namespace mon;

template <typename T> struct Gen { static T get(Rng &r) { return T(r.loguni(1e-6, 1e6)); } static bool same(T a, T b) { return a == b; } };
template <> struct Gen<int> { static int get(Rng &r) { return (int)r.next(); } static bool same(int a, int b) { return a == b; } };
template <> struct Gen<signed char> { static signed char get(Rng &r) { return (signed char)r.next(); } static bool same(int a, int b) { return a == b; } };
template <typename V> struct Gen<DSP::Complex<V>>
{
	typedef DSP::Complex<V> C;
	static C get(Rng &r) { return C(r.sym(), r.loguni(1e-6, 1e6)); }
	static bool same(C a, C b) { return a.real() == b.real() && a.imag() == b.imag(); }
};

template <typename T, int NUM>
static void delays(Rng &rng, const char *type)
{
	typedef Gen<T> G;
	for (int c = 0; c < cases(6, 60); ++c) {
		bool custom = c & 1;
		T init = custom ? G::get(rng) : T(0);
		int len = (int)rng.in(1, 5 * NUM + 3), at = (int)rng.in(0, len);
		int pattern = (int)rng.in(0, 255);
		run(len > NUM, "Delay<%s,%d> init=%d len=%d copy at %d, case %d", type, NUM, custom, len, at, c);
		Box<DSP::Delay<T, NUM>> dut(pattern, custom ? init : T(0));
		std::vector<T> past;
		DSP::Delay<T, NUM> *twin = nullptr;
		for (int t = 0; t < len; ++t) {
			if (t == at)
				twin = new DSP::Delay<T, NUM>(*dut);
			T x = G::get(rng);
			T y = (*dut)(x);
			past.push_back(x);
			OK("delay.output", G::same(y, t < NUM ? init : past[t - NUM]), t, NUM);
		}
		if (twin) {
			// the copy goes its own way from where it was taken
			std::vector<T> own(past.begin(), past.begin() + at);
			for (int t = at; t < at + 2 * NUM + 1; ++t) {
				T x = G::get(rng);
				T y = (*twin)(x);
				own.push_back(x);
				OK("delay.copy", G::same(y, t < NUM ? init : own[t - NUM]), t, NUM);
			}
			delete twin;
			for (int t = len; t < len + NUM; ++t) {
				past.push_back(G::get(rng));
				T y = (*dut)(past[t]);
				OK("delay.after-copy", G::same(y, t < NUM ? init : past[t - NUM]), t, NUM);
			}
		}
		event("delayed samples", len);
		if (len > NUM)
			event("wrapped delay lines");
	}
	// default constructed: silence first
	run(true, "Delay<%s,%d> default", type, NUM);
	Box<DSP::Delay<T, NUM>> dut(0xEE);
	for (int t = 0; t < NUM; ++t)
		OK("delay.silence", G::same((*dut)(G::get(rng)), T(0)), t, NUM);
}

template <typename T, int NUM>
static void buffers(Rng &rng, const char *type)
{
	typedef Gen<T> G;
	for (int c = 0; c < cases(5, 50); ++c) {
		int len = (int)rng.in(0, (NUM < 200 ? 5 : 3) * NUM + 3);
		bool peek = c & 1;
		run(len > 0, "BipBuffer<%s,%d> len=%d peek=%d case %d", type, NUM, len, peek, c);
		Box<DSP::BipBuffer<T, NUM>> dut((int)rng.in(0, 255));
		std::vector<T> past(NUM, T(0));
		const T *buf = (*dut)();
		for (int i = 0; i < NUM; ++i)
			OK("bip.initial", G::same(buf[i], T(0)), i, NUM);
		for (int t = 0; t < len; ++t) {
			T x = G::get(rng);
			past.push_back(x);
			buf = (*dut)(x);
			// oldest first, newest last, in one contiguous block
			for (int i = 0; i < NUM; ++i)
				OK("bip.block", G::same(buf[i], past[past.size() - NUM + i]), t, i);
			if (peek) {
				const T *again = (*dut)();
				for (int i = 0; i < NUM; ++i)
					OK("bip.peek", G::same(again[i], past[past.size() - NUM + i]), t, i);
			}
			if (rng.one_in(4)) {
				DSP::BipBuffer<T, NUM> twin(*dut);
				const T *two = twin(G::get(rng));
				for (int i = 0; i < NUM - 1; ++i)
					OK("bip.copy", G::same(two[i], past[past.size() - NUM + 1 + i]), t, i);
				for (int i = 0; i < NUM; ++i)
					OK("bip.after-copy", G::same(buf[i], past[past.size() - NUM + i]), t, i);
			}
		}
		event("buffered samples", len);
	}
}

template <typename T, int... NUM>
static void all(Rng &rng, const char *type)
{
	int d[] = { (delays<T, NUM>(rng, type), buffers<T, NUM>(rng, type), 0)... };
	(void)d;
}

// more samples than a 16 bit index can address
template <typename T, int NUM>
static void large(Rng &rng, const char *type)
{
	typedef Gen<T> G;
	run(true, "Delay<%s,%d>, BipBuffer<%s,%d>", type, NUM, type, NUM);
	Box<DSP::Delay<T, NUM>> line((int)rng.in(0, 255));
	Box<DSP::BipBuffer<T, NUM>> bip((int)rng.in(0, 255));
	std::vector<T> past(NUM, T(0));
	int len = 3 * NUM + (int)rng.in(1, NUM);
	for (int t = 0; t < len; ++t) {
		past.push_back(G::get(rng));
		T y = (*line)(past.back());
		OK("delay.large", G::same(y, past[t]), t, NUM);
		const T *buf = (*bip)(past.back());
		const T *old = past.data() + t + 1;
		if (t % 5003 == 0 || t == 2 * NUM - 1 || t == 2 * NUM || t == len - 1)
			for (int i = 0; i < NUM; ++i)
				OK("bip.large", G::same(buf[i], old[i]), t, i);
		int i = (int)rng.in(0, NUM - 1);
		OK("bip.large", G::same(buf[0], old[0]) && G::same(buf[NUM - 1], old[NUM - 1]) && G::same(buf[i], old[i]), t, i);
	}
	event("samples in large buffers", len);
}

void workload()
{
	Rng rng(12);
	all<int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000>(rng, "int");
	all<float, 1, 2, 3, 5, 8, 13, 21, 48, 1024>(rng, "float");
	all<double, 1, 2, 3, 4, 7, 10, 129>(rng, "double");
	all<signed char, 1, 2, 3, 300>(rng, "schar");
	all<DSP::Complex<float>, 1, 2, 3, 5, 16, 50>(rng, "complex<float>");
	all<DSP::Complex<double>, 1, 2, 4, 9, 77>(rng, "complex<double>");
	large<float, 20000>(rng, "float");
	large<float, 40000>(rng, "float");
	large<signed char, 70000>(rng, "schar");
}
