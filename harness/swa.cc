// C10: sliding window reduction
#include "mon.hh"
#include "complex.hh"
#include "swa.hh"

using namespace mon;

struct Max { int operator () (int a, int b) { return a > b ? a : b; } };
struct Min { int operator () (int a, int b) { return a < b ? a : b; } };
struct Xor { int operator () (int a, int b) { return a ^ b; } };
struct Or { int operator () (int a, int b) { return a | b; } };
struct And { int operator () (int a, int b) { return a & b; } };
struct Gcd { int operator () (int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; } };
// product modulo a prime: zero and identity differ
struct Mul { int operator () (int a, int b) { return (int)((long long)a * b % 65521); } };
struct Plus { int operator () (int a, int b) { return (int)((unsigned)a + (unsigned)b); } };
// multiset fingerprint: a window that holds a sample twice or not at all shows
struct Bag
{
	uint64_t sum = 0, sq = 0;
	int n = 0;
	Bag() {}
	explicit Bag(uint64_t v) : sum(v), sq(v * v), n(1) {}
	bool operator == (const Bag &o) const { return sum == o.sum && sq == o.sq && n == o.n; }
};
struct Join { Bag operator () (Bag a, Bag b) { Bag c; c.sum = a.sum + b.sum; c.sq = a.sq + b.sq; c.n = a.n + b.n; return c; } };

template <typename OP, int NUM>
static void ints(Rng &rng, const char *op_name, int ident, int low, int high)
{
	OP op;
	for (int c = 0; c < cases(3, 40); ++c) {
		int len = (int)rng.in(1, 5 * NUM + 9);
		run(len > NUM, "SWA<int,%s,%d> len=%d case %d", op_name, NUM, len, c);
		Box<DSP::SWA<int, OP, NUM>> dut((int)rng.in(0, 255), ident);
		std::vector<int> past;
		for (int t = 0; t < len; ++t) {
			past.push_back(rng.one_in(5) ? (rng.one_in(2) ? low : high) : (int)rng.in(low, high));
			int want = ident;
			for (int i = t; i >= 0 && i > t - NUM; --i)
				want = op(want, past[i]);
			EQ("swa.value", (*dut)(past[t]), want, t, NUM);
		}
		event("reductions", len);
	}
}

template <int NUM>
static void bags(Rng &rng)
{
	for (int c = 0; c < cases(3, 40); ++c) {
		int len = (int)rng.in(2 * NUM, 5 * NUM + 9), at = (int)rng.in(0, len - 1);
		run(true, "SWA<multiset,%d> len=%d copy at %d case %d", NUM, len, at, c);
		Box<DSP::SWA<Bag, Join, NUM>> dut((int)rng.in(0, 255), Bag());
		std::vector<Bag> past;
		Join join;
		for (int t = 0; t < len; ++t) {
			past.push_back(Bag(rng.next() | 1));
			Bag want;
			for (int i = t; i >= 0 && i > t - NUM; --i)
				want = join(want, past[i]);
			if (t == at) {
				DSP::SWA<Bag, Join, NUM> twin(*dut);
				OK("swa.copy", twin(past[t]) == want, t, NUM);
				twin(Bag(99));
			}
			OK("swa.multiset", (*dut)(past[t]) == want, t, NUM);
		}
		event("reductions", len);
	}
}

template <int NUM>
static void one(Rng &rng)
{
	ints<Max, NUM>(rng, "max", INT32_MIN, INT32_MIN, INT32_MAX);
	ints<Min, NUM>(rng, "min", INT32_MAX, INT32_MIN, INT32_MAX);
	ints<Xor, NUM>(rng, "xor", 0, INT32_MIN, INT32_MAX);
	ints<Or, NUM>(rng, "or", 0, 0, 255);
	ints<And, NUM>(rng, "and", -1, 0, 255);
	ints<Gcd, NUM>(rng, "gcd", 0, 0, 720);
	ints<Mul, NUM>(rng, "mul", 1, 0, 65520);
	ints<Plus, NUM>(rng, "plus", 0, INT32_MIN, INT32_MAX);
	bags<NUM>(rng);
}

template <int... NUM>
static void all(Rng &rng)
{
	int d[] = { (one<NUM>(rng), 0)... };
	(void)d;
}

// more samples than a 16 bit index can address
template <int NUM>
static void large(Rng &rng)
{
	run(true, "SWA<int,plus and xor,%d>", NUM);
	Box<DSP::SWA<int, Plus, NUM>> plus((int)rng.in(0, 255), 0);
	Box<DSP::SWA<int, Xor, NUM>> xr((int)rng.in(0, 255), 0);
	std::vector<int> past(NUM, 0);
	Plus add;
	int sum = 0, parity = 0, len = 2 * NUM + (int)rng.in(1, NUM);
	for (int t = 0; t < len; ++t) {
		int x = (int)rng.next();
		past.push_back(x);
		sum = add(sum, add(x, (int)-(unsigned)past[t]));
		parity ^= x ^ past[t];
		EQ("swa.large", (*plus)(x), sum, t, NUM);
		EQ("swa.large", (*xr)(x), parity, t, NUM);
	}
	event("reductions", 2 * len);
}

void workload()
{
	Rng rng(10);
	all<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 100, 257>(rng);
	large<20000>(rng);
	large<40000>(rng);
	large<65536>(rng);
}
