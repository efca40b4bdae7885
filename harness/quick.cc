// C15: sorting and selecting
#include "mon.hh"
#include "death.hh"
#include "quick.hh"

using namespace mon;

// orders by key only and counts comparisons
struct Item
{
	int key, id;
	static int64_t compares;
	bool operator < (const Item &o) const { ++compares; return key < o.key; }
	bool operator > (const Item &o) const { ++compares; return key > o.key; }
};
int64_t Item::compares;

template <typename T> T item(int64_t v, int) { return T(v); }
template <> Item item<Item>(int64_t v, int id) { return Item{ (int)v, id }; }
template <typename T> static LD key(const T &v) { return v; }
template <> LD key(const Item &v) { return v.key; }
template <typename T> static bool before(const T &a, const T &b) { return a < b; }
template <> bool before(const Item &a, const Item &b) { return a.key < b.key || (a.key == b.key && a.id < b.id); }

static const char *patterns[] = { "random", "few values", "constant", "ascending", "descending", "organ pipe", "saw", "nearly sorted",
	"two values", "rotated", "median killer", "extremes", "signed zeros and fractions" };

template <typename T>
static void fill(T *a, int n, int kind, Rng &rng)
{
	int64_t lim = std::is_same<T, unsigned char>::value ? 255 : std::is_same<T, signed char>::value ? 127 : 1000000000;
	int64_t low = std::is_same<T, unsigned char>::value ? 0 : -lim;
	int m = (int)rng.in(2, 40), r = (int)rng.in(0, n);
	for (int i = 0; i < n; ++i) {
		int64_t v;
		switch (kind) {
		case 0: v = rng.in(low, lim); break;
		case 1: v = rng.in(0, m); break;
		case 2: v = m; break;
		case 3: v = i; break;
		case 4: v = n - i; break;
		case 5: v = std::min(i, n - i); break;
		case 6: v = i % m; break;
		case 7: v = i; break;
		case 8: v = rng.in(0, 1); break;
		case 9: v = (i + r) % n; break;
		case 10: v = i & 1 ? i : n / 2 + i / 2; break;
		case 11: v = rng.one_in(3) ? lim : rng.one_in(2) ? low : 0; break;
		default: v = rng.in(-2, 2); break;
		}
		a[i] = item<T>(v, i);
	}
	if (kind == 7)
		for (int i = 0; i < 1 + n / 20; ++i)
			if (n)
				std::swap(a[rng.in(0, n - 1)], a[rng.in(0, n - 1)]);
}
static void tweak(float *a, int n, int kind, Rng &rng)
{
	if (kind == 12)
		for (int i = 0; i < n; ++i)
			a[i] = rng.one_in(4) ? -0.f : a[i] * 0.125f;
	if (kind == 11)
		for (int i = 0; i < n; ++i)
			a[i] = rng.one_in(4) ? -3.4e38f : rng.one_in(3) ? 3.4e38f : a[i] * 1e-30f;
}
template <typename T> static void tweak(T *, int, int, Rng &) {}

template <typename T>
static void check(Rng &rng, int n, int kind, const char *type)
{
	Buf<T> a(n);
	fill<T>(a, n, kind, rng);
	tweak(a.data(), n, kind, rng);
	std::vector<T> orig(a.data(), a.data() + n), want(orig);
	std::stable_sort(want.begin(), want.end(), before<T>);
	Hash h;
	h << n;
	for (auto &v : orig)
		h << (double)key(v);
	label("quick_sort<%s> n=%d %s", type, n, patterns[kind]);
	tick(h.h, n > 1);
	Item::compares = 0;
	DSP::quick_sort(a.data(), n);
	if (std::is_same<T, Item>::value && n > 1) {
		// quadratic behavior on plain patterns would be a usability defect
		if (kind != 10)
			LE("sort.comparisons", (LD)Item::compares, 40 * n + 12.L * n * std::log2((LD)n), n, kind);
		event("comparisons", Item::compares);
	}
	for (int i = 1; i < n; ++i)
		OK("sort.ordered", !(key(a[i]) < key(a[i - 1])), i, n);
	std::vector<T> got(a.data(), a.data() + n);
	std::stable_sort(got.begin(), got.end(), before<T>);
	for (int i = 0; i < n; ++i)
		OK("sort.permutation", !before(got[i], want[i]) && !before(want[i], got[i]), i, n);
	event("sorted elements", n);

	for (int c = 0; n && c < 3; ++c) {
		int k = c == 0 ? (int)rng.in(0, n - 1) : c == 1 ? (rng.one_in(2) ? 0 : n - 1) : n / 2;
		for (int i = 0; i < n; ++i)
			a[i] = orig[i];
		label("quick_select<%s> n=%d k=%d %s", type, n, k, patterns[kind]);
		tick(h.h + k, n > 1);
		Item::compares = 0;
		T v = DSP::quick_select(a.data(), k, n);
		if (std::is_same<T, Item>::value && kind != 10)
			LE("select.comparisons", (LD)Item::compares, 40 * n + 12.L * n * std::log2((LD)n + 2), n, kind);
		NEAR("select.value", key(v), key(want[k]), 0, k, n);
		NEAR("select.position", key(a[k]), key(want[k]), 0, k, n);
		for (int i = 0; i < k; ++i)
			OK("select.left", key(a[i]) <= key(v), i, n);
		for (int i = k + 1; i < n; ++i)
			OK("select.right", key(a[i]) >= key(v), i, n);
		std::vector<T> rest(a.data(), a.data() + n);
		std::stable_sort(rest.begin(), rest.end(), before<T>);
		for (int i = 0; i < n; ++i)
			OK("select.permutation", !before(rest[i], want[i]) && !before(want[i], rest[i]), i, n);
		event("selections");
	}
}

void workload()
{
	Rng rng(15);
	const int kinds = sizeof(patterns) / sizeof(*patterns);
	for (int kind = 0; kind < kinds; ++kind) {
		// every small size: around the switch between the two algorithms
		for (int n = 0; n <= 140; ++n) {
			check<int>(rng, n, kind, "int");
			check<Item>(rng, n, kind, "item");
			if (n % 3 == 0)
				check<float>(rng, n, kind, "float");
		}
		for (int c = 0; c < cases(20, 600); ++c) {
			int n = (int)rng.loguni(1, c % 10 == 0 ? 20000 : 2000);
			n = n < 0 ? -n : n;
			switch (c % 6) {
			case 0: check<int>(rng, n, kind, "int"); break;
			case 1: check<float>(rng, n, kind, "float"); break;
			case 2: check<double>(rng, n, kind, "double"); break;
			case 3: check<Item>(rng, n, kind, "item"); break;
			case 4: check<unsigned char>(rng, n, kind, "uchar"); break;
			default: check<signed char>(rng, n, kind, "schar");
			}
		}
		check<Item>(rng, (int)cases(5000, 100000), kind, "item");
		if (kind == 0 || kind == 7)
			check<int>(rng, 70000 + (int)rng.in(0, 5000), kind, "int");
	}
	// all permutations and all small words
	int a[8];
	for (int n = 1; n <= 7; ++n) {
		for (int i = 0; i < n; ++i)
			a[i] = i;
		do {
			int b[8];
			for (int i = 0; i < n; ++i)
				b[i] = a[i];
			DSP::quick_sort(b, n);
			for (int i = 0; i < n; ++i)
				EQ("sort.permutations", b[i], i, i, n);
		} while (std::next_permutation(a, a + n));
	}
	// every order of the five samples the pivot is taken from
	int five[5] = { 0, 1, 2, 3, 4 };
	do {
		const int n = 41;
		Buf<int> b(n);
		for (int i = 0; i < n; ++i)
			b[i] = i * 7 % n + 100;
		int q = (n - 1) / 4, at[5] = { 0, q, 20, 20 + q, n - 1 };
		for (int i = 0; i < 5; ++i)
			b[at[i]] = five[i] * 60;
		std::vector<int> want(b.data(), b.data() + n);
		std::sort(want.begin(), want.end());
		run(true, "quick_sort pivot order %d%d%d%d%d", five[0], five[1], five[2], five[3], five[4]);
		DSP::quick_sort(b.data(), n);
		for (int i = 0; i < n; ++i)
			EQ("sort.pivots", b[i], want[i], i);
	} while (std::next_permutation(five, five + 5));
	run(true, "quick_select misuse");
	EQ("select.trap.k", end_of([]{ int b[4] = { 1, 2, 3, 4 }; volatile int k = 4, v = DSP::quick_select(b, k, 4); (void)v; }), SIGABRT);
	EQ("select.trap.n", end_of([]{ int b[4] = { 1, 2, 3, 4 }; volatile int n = 0, v = DSP::quick_select(b, 0, n); (void)v; }), SIGABRT);
}
