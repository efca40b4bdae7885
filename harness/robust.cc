// C16: robust line fitting
#include "mon.hh"
#include "theil_sen.hh"
#include "repeated_median.hh"

using namespace mon;

struct Line { LD slope, yint, dslope, dyint; };

static LD upper_median(std::vector<LD> &v)
{
	std::sort(v.begin(), v.end());
	return v[v.size() / 2];
}

template <typename T>
static Line theil_sen(const T *x, const T *y, int n)
{
	std::vector<LD> s;
	for (int i = 0; i < n; ++i)
		for (int j = i + 1; j < n; ++j)
			if (x[j] != x[i])
				s.push_back(((LD)y[j] - y[i]) / ((LD)x[j] - x[i]));
	Line l;
	l.slope = upper_median(s);
	l.dslope = 6 * eps<T>() * std::abs(l.slope) + 1e-36L;
	s.clear();
	l.dyint = 0;
	for (int i = 0; i < n; ++i) {
		s.push_back(y[i] - l.slope * x[i]);
		l.dyint = std::max(l.dyint, l.dslope * std::abs((LD)x[i]) + 3 * eps<T>() * (std::abs((LD)y[i]) + std::abs(l.slope * x[i])));
	}
	l.yint = upper_median(s);
	return l;
}

// joint: intercept as repeated median too, otherwise as median of the residues
template <typename T>
static Line repeated_median(const T *x, const T *y, int n, bool joint)
{
	std::vector<LD> outer, inner;
	for (int i = 0; i < n; ++i) {
		inner.clear();
		for (int j = 0; j < n; ++j)
			if (x[j] != x[i])
				inner.push_back(((LD)y[j] - y[i]) / ((LD)x[j] - x[i]));
		outer.push_back(upper_median(inner));
	}
	Line l;
	l.slope = upper_median(outer);
	l.dslope = 6 * eps<T>() * std::abs(l.slope) + 1e-36L;
	l.dyint = 0;
	outer.clear();
	for (int i = 0; i < n; ++i) {
		inner.clear();
		if (joint) {
			for (int j = 0; j < n; ++j)
				if (x[j] != x[i]) {
					LD dx = (LD)x[j] - x[i];
					inner.push_back(((LD)x[j] * y[i] - (LD)x[i] * y[j]) / dx);
					l.dyint = std::max(l.dyint, 5 * eps<T>() * (std::abs((LD)x[j] * y[i]) + std::abs((LD)x[i] * y[j])) / std::abs(dx));
				}
			outer.push_back(upper_median(inner));
		} else {
			outer.push_back(y[i] - l.slope * x[i]);
			l.dyint = std::max(l.dyint, l.dslope * std::abs((LD)x[i]) + 3 * eps<T>() * (std::abs((LD)y[i]) + std::abs(l.slope * x[i])));
		}
	}
	l.yint = upper_median(outer);
	return l;
}

template <typename T, typename DUT>
static void results(DUT &dut, const Line &l, Rng &rng)
{
	NEAR("fit.slope", dut.slope(), l.slope, l.dslope);
	NEAR("fit.yint", dut.yint(), l.yint, l.dyint);
	LD s = dut.slope(), b = dut.yint();
	if (std::abs(s) > 1e-20L)
		NEAR("fit.xint", dut.xint(), -b / s, 6 * eps<T>() * std::abs(b / s) + 1e-36L);
	for (int i = 0; i < 3; ++i) {
		T x = T(rng.loguni(1e-2, 1e3));
		NEAR("fit.line", dut(x), b + s * x, 3 * eps<T>() * (std::abs(b) + std::abs(s * x)));
	}
}

static const char *kinds[] = { "noise around a line", "uniform grid", "repeated abscissae", "outliers", "unordered", "pairs of duplicates", "steep", "constant", "few levels" };

template <typename T>
static void data(T *x, T *y, int n, int kind, Rng &rng)
{
	LD a = rng.loguni(1e-2, 1e2), b = rng.loguni(1e-2, 1e2);
	for (int i = 0; i < n; ++i) {
		switch (kind) {
		case 1: x[i] = i; break;
		case 8: x[i] = rng.in(-n, n); break;
		case 2: x[i] = rng.in(0, std::max(1, n / 3)); break;
		case 5: x[i] = i / 2; break;
		case 6: x[i] = i * 1e-3L; break;
		default: x[i] = rng.sym() * 10;
		}
		y[i] = kind == 7 ? T(b) : T(a * x[i] + b + 0.1 * rng.sym());
		if (kind == 8)
			y[i] = T(rng.one_in(3) ? rng.in(-3, 3) : 1);
		if (kind == 3 && rng.one_in(5))
			y[i] = T(rng.loguni(1, 1e6));
	}
	// near or far, high or low
	if (rng.one_in(3)) {
		int ex = (int)rng.in(-20, 20), ey = (int)rng.in(-20, 20);
		for (int i = 0; i < n; ++i) {
			x[i] = std::ldexp(x[i], ex);
			y[i] = std::ldexp(y[i], ey);
		}
	}
	if (n > 1 && x[0] == x[n - 1])
		x[0] = x[n - 1] + 1;
	bool distinct = false;
	for (int i = 1; i < n; ++i)
		distinct = distinct || x[i] != x[0];
	if (!distinct)
		x[0] += 1;
}

template <typename T, typename DUT>
static void fresh(DUT &dut)
{
	NEAR("fit.fresh", dut.slope(), 0, 0);
	NEAR("fit.fresh", dut.yint(), 0, 0);
	NEAR("fit.fresh", dut.xint(), 0, 0);
	NEAR("fit.fresh", dut(T(3)), 0, 0);
}

template <typename T, int MAX>
static void fits(Rng &rng)
{
	Box<DSP::TheilSenEstimator<T, MAX>> ts((int)rng.in(0, 255));
	Box<DSP::RepeatedMedianEstimator<T, MAX>> rm((int)rng.in(0, 255));
	Box<DSP::RepeatedMedianEstimator2<T, MAX>> rm2((int)rng.in(0, 255));
	label("estimators<%s,%d> fresh", name<T>(), MAX);
	fresh<T>(*ts);
	fresh<T>(*rm);
	fresh<T>(*rm2);
	for (int c = 0; c < cases(72, 1000); ++c) {
		int kind = c % 9, n = c < 9 ? MAX : (int)rng.in(2, MAX);
		Buf<T> x(n), y(n);
		data<T>(x, y, n, kind, rng);
		std::vector<T> kx(x.data(), x.data() + n), ky(y.data(), y.data() + n);
		Hash h;
		h << n << kind;
		for (int i = 0; i < n; ++i)
			h << x[i] << y[i];
		tick(h.h, n > 2);
		label("TheilSen<%s,%d> n=%d %s", name<T>(), MAX, n, kinds[kind]);
		ts->compute(x, y, n);
		results<T>(*ts, theil_sen(x.data(), y.data(), n), rng);
		label("RepeatedMedian<%s,%d> n=%d %s", name<T>(), MAX, n, kinds[kind]);
		rm->compute(x, y, n);
		results<T>(*rm, repeated_median(x.data(), y.data(), n, true), rng);
		label("RepeatedMedian2<%s,%d> n=%d %s", name<T>(), MAX, n, kinds[kind]);
		rm2->compute(x, y, n);
		results<T>(*rm2, repeated_median(x.data(), y.data(), n, false), rng);
		for (int i = 0; i < n; ++i)
			OK("fit.input-untouched", x[i] == kx[i] && y[i] == ky[i], i);
		event("fits", 3);
	}
	// more points than room: the first ones count, and nothing is overrun
	for (int c = 0; c < cases(4, 60); ++c) {
		int n = MAX + 1 + (int)rng.in(0, MAX);
		Buf<T> x(n), y(n);
		data<T>(x, y, n, 0, rng);
		run(true, "estimators<%s,%d> n=%d too many points %d", name<T>(), MAX, n, c);
		rm->compute(x, y, n);
		results<T>(*rm, repeated_median(x.data(), y.data(), MAX, true), rng);
		rm2->compute(x, y, n);
		results<T>(*rm2, repeated_median(x.data(), y.data(), MAX, false), rng);
		ts->compute(x, y, n);
		NEAR("fit.finite", ts->slope() * 0, 0, 0);
		event("overlong inputs", 3);
	}
	// breakdown: gross errors below the breakdown point do not move an exact line
	for (int c = 0; c < cases(12, 300); ++c) {
		int n = MAX < 3 ? MAX : (int)rng.in(3, MAX);
		T a = T(rng.in(0, 2) ? rng.in(-50, 50) : 0), b = T(rng.in(-50, 50));
		Buf<T> x(n), y(n);
		for (int i = 0; i < n; ++i) {
			x[i] = i;
			y[i] = a * i + b;
		}
		// repeated median: fewer than half
		int count = n - 1, idx = count / 2;
		int bad = std::min(std::min(idx, count - 1 - idx), std::min(n / 2, n - 1 - n / 2));
		// pairs for the other: the good ones have to outnumber the rest
		int most = 0;
		while (true) {
			int g = n - (most + 1), pairs = n * (n - 1) / 2, good = g * (g - 1) / 2, wrong = pairs - good;
			if (wrong > pairs / 2 || wrong > pairs - 1 - pairs / 2 || most + 1 > n / 2 || most + 1 > n - 1 - n / 2)
				break;
			++most;
		}
		std::vector<int> order(n);
		for (int i = 0; i < n; ++i)
			order[i] = i;
		rng.shuffle(order.data(), n);
		int side = (int)rng.in(0, 2);
		run(bad > 0, "estimators<%s,%d> n=%d with up to %d gross errors side %d case %d", name<T>(), MAX, n, bad, side, c);
		for (int i = 0; i < bad; ++i) {
			LD e = std::abs(rng.loguni(1e3, 1e6));
			y[order[i]] += T(side == 0 ? e : side == 1 ? -e : rng.one_in(2) ? e : -e);
			if (i + 1 == most) {
				ts->compute(x, y, n);
				NEAR("robust.theil-sen.slope", ts->slope(), a, 4 * eps<T>() * std::abs(a), n, most);
				NEAR("robust.theil-sen.yint", ts->yint(), b, 8 * eps<T>() * (std::abs(a) * n + std::abs((LD)b)), n, most);
			}
		}
		rm->compute(x, y, n);
		NEAR("robust.repeated.slope", rm->slope(), a, 4 * eps<T>() * std::abs(a), n, bad);
		NEAR("robust.repeated.yint", rm->yint(), b, 8 * eps<T>() * n * (std::abs(a) * n + std::abs((LD)b)), n, bad);
		rm2->compute(x, y, n);
		NEAR("robust.repeated2.slope", rm2->slope(), a, 4 * eps<T>() * std::abs(a), n, bad);
		NEAR("robust.repeated2.yint", rm2->yint(), b, 8 * eps<T>() * (std::abs(a) * n + std::abs((LD)b)), n, bad);
		event("contaminated lines");
	}
}

void workload()
{
	Rng rng(16);
	fits<float, 2>(rng);
	fits<double, 3>(rng);
	fits<float, 5>(rng);
	fits<double, 10>(rng);
	fits<float, 20>(rng);
	fits<double, 33>(rng);
	fits<double, 40>(rng);
	fits<float, 64>(rng);
	fits<double, 100>(rng);
}
