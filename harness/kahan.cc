// C08: compensated summation
#include <list>
#include "mon.hh"
#include "kahan.hh"

using namespace mon;

typedef __float128 Q;

// exact sum of halves, cancelling
template <typename T>
static void series(Rng &rng, int kind, int n)
{
	std::vector<T> v(n);
	const char *what = "";
	for (int i = 0; i < n; ++i) {
		switch (kind) {
		case 0: what = "constant"; v[i] = T(0.1); break;
		case 1: what = "harmonic"; v[i] = T(1) / T(i + 1); break;
		case 2: what = "uniform"; v[i] = T(rng.sym()); break;
		case 3: what = "positive"; v[i] = T(rng.u01()); break;
		case 4: what = "dynamic"; v[i] = T(rng.loguni(1e-12, 1e6)); break;
		case 5: what = "alternating"; v[i] = (i & 1 ? -1 : 1) * T(1000 + rng.u01()); break;
		case 6: what = "drip into a lake"; v[i] = i ? T(1e-9) : T(1); break;
		case 7: what = "decay"; v[i] = i ? v[i - 1] * T(0.999) : T(1000); break;
		default: what = "growth"; v[i] = T(1e-6) * T(i) * T(i);
		}
	}
	// of any size
	T size = std::ldexp(T(1), rng.one_in(2) ? 0 : (int)rng.in(-60, 60));
	for (int i = 0; i < n; ++i)
		v[i] *= size;
	Hash h;
	h << n << kind << (int)sizeof(T);
	for (int i = 0; i < n; i += 1 + n / 64)
		h << v[i];
	T init = rng.one_in(2) ? T(0) : size * T(rng.loguni(1e-3, 1e3));
	h << init;
	label("Kahan<%s> %s n=%d init=%g", name<T>(), what, n, (double)init);
	tick(h.h, n > 2);
	Q sum = init, mag = init < 0 ? -init : init;
	Box<DSP::Kahan<T>> dut(0xFF, init);
	LD u = eps<T>() / 2;
	NEAR("kahan.init", (*dut)(), init, 0);
	for (int i = 0; i < n; ++i) {
		sum += v[i];
		mag += v[i] < 0 ? -v[i] : v[i];
		T got = (*dut)(v[i]);
		if (i < 100 || i % 97 == 0 || i == n - 1) {
			NEAR("kahan.sum", got, (LD)sum, (4 * u + 4 * n * u * u) * (LD)mag, i);
			NEAR("kahan.value", (*dut)(), got, 0, i);
		}
	}
	LD tol = (4 * u + 4 * n * u * u) * (LD)mag;
	NEAR("kahan_sum.pointer", DSP::kahan_sum(v.data(), v.data() + n, init), (LD)sum, tol);
	NEAR("kahan_sum.iterator", DSP::kahan_sum(v.begin(), v.end(), init), (LD)sum, tol);
	if (n < 2000) {
		std::list<T> l(v.begin(), v.end());
		NEAR("kahan_sum.list", DSP::kahan_sum(l.begin(), l.end(), init), (LD)sum, tol);
	}
	event("summands", n);
}

// same(): adds, and tells whether that changed anything
template <typename T>
static void same(Rng &rng)
{
	LD u = eps<T>() / 2;
	for (int c = 0; c < cases(200, 4000); ++c) {
		T big = T(rng.loguni(1e-3, 1e3)), q = T(rng.uni(0.1, 0.97));
		int n = 0;
		run(true, "Kahan<%s>::same geometric series start %g ratio %.17g", name<T>(), (double)big, (double)q);
		Box<DSP::Kahan<T>> dut(0x55);
		NEAR("kahan.empty", (*dut)(), 0, 0);
		T x = big;
		Q want = 0;
		bool end = false;
		while (!end && n < 10000) {
			T before = (*dut)();
			end = dut->same(x);
			if (end)
				NEAR("kahan.same.unchanged", (*dut)(), before, 0, n);
			want += x;
			// must not stop while terms still matter
			if (end)
				OK("kahan.same.early", std::abs((LD)x) <= 2 * u * std::abs((LD)want), n);
			if ((*dut)() != before)
				OK("kahan.same.changed", !end, n);
			x *= q;
			++n;
		}
		OK("kahan.same.terminates", end, n);
		NEAR("kahan.same.sum", (*dut)(), (LD)want, 6 * u * std::abs((LD)want), n);
		event("series summed to convergence");
	}
	// a drip too small to change the sum alone still changes the state
	run(true, "Kahan<%s>::same drip", name<T>());
	DSP::Kahan<T> k(T(1));
	T drip = T(eps<T>() / 64);
	bool any = false;
	for (int i = 0; i < 6400; ++i)
		any = k.same(drip) || any;
	OK("kahan.same.drip", !any);
	NEAR("kahan.drip", k(), 1 + 100 * eps<T>(), 2 * eps<T>());
	OK("kahan.same.nothing", DSP::Kahan<T>(T(1)).same(T(0)));
	// a copy carries the compensation along
	for (int c = 0; c < cases(50, 1000); ++c) {
		run(true, "Kahan<%s> copy %d", name<T>(), c);
		DSP::Kahan<T> a(T(rng.uni(1, 2)));
		Q want = a();
		int n = (int)rng.in(1, 500);
		for (int i = 0; i < n; ++i) {
			T x = T(rng.u01() * (double)eps<T>());
			a(x);
			want += x;
		}
		DSP::Kahan<T> b(a);
		OK("kahan.copy.equal", a == b);
		DSP::Kahan<T> d;
		d = a;
		OK("kahan.assign.equal", d == a);
		for (int i = 0; i < n; ++i) {
			T x = T(rng.u01() * (double)eps<T>());
			b(x);
			want += x;
		}
		NEAR("kahan.copy.sum", b(), (LD)want, 4 * u * (LD)want);
		OK("kahan.copy.differs", n < 100 || !(a == b));
	}
}

void workload()
{
	Rng rng(8);
	for (int kind = 0; kind <= 8; ++kind) {
		for (int c = 0; c < cases(12, 200); ++c) {
			int n = c == 0 ? (int)cases(300000, 3000000) : (int)std::abs(rng.loguni(1, 30000));
			series<float>(rng, kind, n);
			series<double>(rng, kind, n);
		}
		series<float>(rng, kind, 0);
		series<double>(rng, kind, 1);
	}
	same<float>(rng);
	same<double>(rng);
}
