// C43: effort per input of everything that slides
#include "mon.hh"

namespace {

// a number that counts what is done with it
struct N
{
	static long copies, sums, compares;
	int v;
	N() : v(0) {}
	N(int v) : v(v) {}
	N(const N &o) : v(o.v) { ++copies; }
	N &operator = (const N &o) { v = o.v; ++copies; return *this; }
	N &operator += (const N &o) { v = (int)((unsigned)v + (unsigned)o.v); ++sums; return *this; }
	N &operator -= (const N &o) { v = (int)((unsigned)v - (unsigned)o.v); ++sums; return *this; }
	N &operator *= (const N &o) { v = (int)((unsigned)v * (unsigned)o.v); ++sums; return *this; }
	N &operator /= (const N &o) { v /= o.v; ++sums; return *this; }
	static void reset() { copies = sums = compares = 0; }
};
long N::copies, N::sums, N::compares;

N operator + (const N &a, const N &b) { N c(a.v); return c += b; }
N operator - (const N &a, const N &b) { N c(a.v); return c -= b; }
N operator * (const N &a, const N &b) { N c(a.v); return c *= b; }
N operator / (const N &a, const N &b) { N c(a.v); return c /= b; }
N operator - (const N &a) { ++N::sums; return N(-a.v); }
bool operator == (const N &a, const N &b) { ++N::compares; return a.v == b.v; }
bool operator != (const N &a, const N &b) { ++N::compares; return a.v != b.v; }
bool operator < (const N &a, const N &b) { ++N::compares; return a.v < b.v; }
bool operator > (const N &a, const N &b) { ++N::compares; return a.v > b.v; }
bool operator <= (const N &a, const N &b) { ++N::compares; return a.v <= b.v; }
bool operator >= (const N &a, const N &b) { ++N::compares; return a.v >= b.v; }

}

template <> struct std::numeric_limits<N>
{
	static const bool is_specialized = true;
	static N min() { return N(INT32_MIN); }
	static N max() { return N(INT32_MAX); }
	static N lowest() { return N(INT32_MIN); }
};

using std::min;
using std::max;
#include "delay.hh"
#include "bip_buffer.hh"
#include "deque.hh"
#include "stack.hh"
#include "swa.hh"
#include "sma.hh"
#include "movext.hh"

using namespace mon;

static int levels(int n)
{
	int l = 0;
	while (1 << l < n)
		++l;
	return l;
}

// histories that invite repeated work
static const char *shapes[] = { "random", "rising", "falling", "equal", "saw", "pipe", "few" };
static int value(int shape, int t, int num, Rng &rng)
{
	switch (shape) {
	case 1: return t;
	case 2: return -t;
	case 3: return 7;
	case 4: return t % (num / 2 + 2);
	case 5: { int p = t % (2 * num + 1); return p < num ? p : 2 * num - p; }
	case 6: return (int)rng.in(0, 2);
	}
	return (int)rng.in(-100000, 100000);
}

template <int NUM>
struct Test
{
	static void lines(Rng &rng)
	{
		int len = 3 * NUM + 20;
		run(true, "Delay<%d> BipBuffer<%d> effort", NUM, NUM);
		Box<DSP::Delay<N, NUM>> delay((int)rng.in(0, 255));
		Box<DSP::BipBuffer<N, NUM>> bip((int)rng.in(0, 255));
		for (int t = 0; t < len; ++t) {
			N in((int)rng.in(-100000, 100000));
			N::reset();
			(*delay)(in);
			LE("delay.copies", N::copies, 12, t, NUM);
			N::reset();
			(*bip)(in);
			LE("buffer.copies", N::copies, 12, t, NUM);
		}
		event("inputs of lines", 2 * len);
	}
	static void ends(Rng &rng)
	{
		run(true, "Deque<%d> Stack<%d> effort", NUM, NUM);
		Box<DSP::Deque<N, NUM>> deque((int)rng.in(0, 255));
		Box<DSP::Stack<N, NUM>> stack((int)rng.in(0, 255));
		int inside = 0, piled = 0, len = 6 * NUM + 50;
		for (int t = 0; t < len; ++t) {
			// fill, drain, then wander
			bool push = t < 2 * NUM ? true : t < 4 * NUM ? false : rng.next() & 1;
			N in((int)rng.in(-100000, 100000));
			N::reset();
			if (push && inside < NUM) {
				if (rng.next() & 1)
					deque->push_back(in);
				else
					deque->push_front(in);
				++inside;
			} else if (inside) {
				if (rng.next() & 1)
					deque->pop_back();
				else
					deque->pop_front();
				--inside;
			}
			if (inside) {
				deque->front();
				deque->back();
			}
			deque->size();
			deque->empty();
			deque->full();
			LE("deque.copies", N::copies, 16, t, NUM);
			N::reset();
			if (push && piled < NUM) {
				stack->push(in);
				++piled;
			} else if (piled) {
				stack->pop();
				--piled;
			}
			if (piled) {
				stack->top();
				stack->first();
			}
			stack->size();
			stack->empty();
			stack->full();
			LE("stack.copies", N::copies, 16, t, NUM);
		}
		N::reset();
		deque->clear();
		stack->clear();
		LE("clear.copies", N::copies, 16, NUM);
		event("operations at the ends", 2 * len);
	}
	static void windows(Rng &rng)
	{
		int len = 3 * NUM + 20, deep = levels(NUM);
		run(true, "SWA<%d> SMA effort", NUM);
		Box<DSP::SWA<N, std::plus<N>, NUM>> swa((int)rng.in(0, 255), N(0));
		Box<DSP::SMA2<N, N, NUM>> sma2((int)rng.in(0, 255));
		Box<DSP::SMA3<N, N, NUM>> sma3((int)rng.in(0, 255));
		Box<DSP::SMA4<N, N, NUM>> sma4((int)rng.in(0, 255));
		long most = 0;
		for (int t = 0; t < len; ++t) {
			N in((int)rng.in(-1000, 1000));
			N::reset();
			(*swa)(in);
			most = std::max(most, N::sums);
			// once up the tree, or twice
			LE("swa.operations", N::sums, 2 * deep + 4, t, NUM);
			LE("swa.copies", N::copies, 8 * deep + 16, t, NUM);
			N::reset();
			(*sma2)(in);
			LE("sma2.operations", N::sums, 8, t, NUM);
			LE("sma2.copies", N::copies, 24, t, NUM);
			N::reset();
			(*sma3)(in);
			LE("sma3.operations", N::sums, 24, t, NUM);
			LE("sma3.copies", N::copies, 64, t, NUM);
			N::reset();
			(*sma4)(in);
			LE("sma4.operations", N::sums, 2 * deep + 6, t, NUM);
		}
		// it is really observed: no way around combining all
		if (NUM > 1)
			GE("swa.observed", most, 1, NUM);
		event("window inputs", 4 * len);
	}
	template <typename DUT>
	static void extremes(Rng &rng, int shape, const char *which)
	{
		int len = 8 * NUM + 100;
		run(true, "%s<%d> effort %s", which, NUM, shapes[shape]);
		Box<DUT> dut((int)rng.in(0, 255));
		N::reset();
		long before = 0;
		for (int t = 0; t < len; ++t) {
			(*dut)(N(value(shape, t, NUM, rng)));
			// a single input may take long, all of them together not
			LE("extreme.compares", N::compares, 8L * (t + 1) + 4 * NUM + 16, t, NUM);
			LE("extreme.copies", N::copies, 48L * (t + 1) + 8 * NUM + 64, t, NUM);
			before = N::compares;
		}
		GE("extreme.observed", before, len / 2, NUM);
		event("inputs of moving extremes", len);
	}
	static void all(Rng &rng)
	{
		lines(rng);
		ends(rng);
		windows(rng);
		for (int shape = 0; shape < 7; ++shape) {
			extremes<DSP::MovMin<N, NUM>>(rng, shape, "MovMin");
			extremes<DSP::MovMax<N, NUM>>(rng, shape, "MovMax");
		}
	}
};

void workload()
{
	Rng rng(43);
	for (int c = 0; c < cases(2, 40); ++c) {
		Test<1>::all(rng);
		Test<2>::all(rng);
		Test<3>::all(rng);
		Test<7>::all(rng);
		Test<16>::all(rng);
		Test<33>::all(rng);
		Test<100>::all(rng);
		Test<1000>::all(rng);
		if (tiny)
			continue;
		Test<4096>::all(rng);
		Test<20000>::all(rng);
	}
}
