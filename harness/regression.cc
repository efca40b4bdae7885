// C17: simple linear regression
#include "mon.hh"
#include "regression.hh"

using namespace mon;

template <typename T>
static void compare(DSP::SimpleLinearRegression<T> &dut, const std::vector<LD> &x, const std::vector<LD> &y, Rng &rng)
{
	int n = (int)x.size();
	LD ax = 0, ay = 0, mx = 0, my = 0;
	for (int i = 0; i < n; ++i) {
		ax += x[i] / n;
		ay += y[i] / n;
		mx += std::abs(x[i]) / n;
		my += std::abs(y[i]) / n;
	}
	LD var = 0, cov = 0, mag = 0, dev = 0;
	for (int i = 0; i < n; ++i) {
		var += (x[i] - ax) * (x[i] - ax);
		cov += (x[i] - ax) * (y[i] - ay);
		mag += std::abs((x[i] - ax) * (y[i] - ay));
		dev += std::abs(x[i] - ax);
	}
	LD slope = cov / var, yint = ay - slope * ax, xint = ax - ay / slope;
	LD u = eps<T>(), ex = (1 + n / 4.L) * u * mx, ey = (1 + n / 4.L) * u * my;
	LD ds = u * (4 + n / 4.L) * (mag / var + std::abs(slope)) + 2 * (n * ex * ey + ex * std::abs(slope) * dev + ey * dev) / var;
	LD db = 2 * (ey + std::abs(slope) * ex + ds * std::abs(ax) + 2 * u * (std::abs(ay) + std::abs(slope * ax)));
	NEAR("regression.slope", dut.slope(), slope, ds, n);
	NEAR("regression.yint", dut.yint(), yint, db, n);
	if (ds < 0.01L * std::abs(slope)) {
		LD dx = 2 * (ex + ey / std::abs(slope) + std::abs(ay / slope) * (2 * ds / std::abs(slope) + 4 * u) + 2 * u * (std::abs(ax) + std::abs(xint)));
		NEAR("regression.xint", dut.xint(), xint, dx, n);
	}
	for (int i = 0; i < 3; ++i) {
		T p = T(rng.sym() * 100);
		LD s = dut.slope(), b = dut.yint();
		NEAR("regression.line", dut(p), b + s * p, 3 * u * (std::abs(b) + std::abs(s * p)), n);
	}
	// no other line is better: the residues have neither mean nor trend
	LD r0 = 0, r1 = 0, w0 = 0, w1 = 0;
	for (int i = 0; i < n; ++i) {
		LD r = y[i] - (dut.yint() + (LD)dut.slope() * x[i]);
		r0 += r;
		r1 += r * (x[i] - ax);
		w0 += db + ds * std::abs(x[i]);
		w1 += (db + ds * std::abs(x[i])) * std::abs(x[i] - ax);
	}
	NEAR("regression.residue.mean", r0, 0, w0 + 1e-30L, n);
	NEAR("regression.residue.trend", r1, 0, w1 + 1e-30L, n);
}

template <typename T>
static void all(Rng &rng)
{
	label("SimpleLinearRegression<%s> fresh", name<T>());
	Box<DSP::SimpleLinearRegression<T>> none(0xFF);
	NEAR("regression.fresh", none->slope(), 0, 0);
	NEAR("regression.fresh", none->yint(), 0, 0);
	NEAR("regression.fresh", none->xint(), 0, 0);
	for (int c = 0; c < cases(600, 20000); ++c) {
		int n = c % 4 == 0 ? (int)rng.in(2, 5) : (int)std::abs(rng.loguni(2, 600));
		LD a = rng.loguni(1e-2, 1e2), b = rng.loguni(1e-2, 1e2), noise = c % 3 ? 0.1L : 0, at = c % 5 ? 0 : 100;
		if (c % 50 == 49)
			n = (int)rng.in(5000, 40000);
		if (c % 7 == 3) {
			// steep or flat
			LD size = std::abs(rng.loguni(1e-9, 1e9));
			a *= size;
			b *= size;
			noise *= size;
		}
		if (c % 11 == 7) {
			// a horizontal line
			a = noise = 0;
			b = rng.in(-2, 2);
		}
		// points close together or far apart
		LD wide = c % 6 == 5 ? std::abs(rng.loguni(1e-6, 1e6)) : 1;
		Buf<T> x(n), y(n);
		std::vector<LD> lx(n), ly(n);
		Hash h;
		for (int i = 0; i < n; ++i) {
			x[i] = T(wide * (at + (i == 0 ? -1 : i == 1 ? 1 : rng.sym())));
			y[i] = T(a * x[i] + b + noise * rng.sym());
			lx[i] = x[i];
			ly[i] = y[i];
			h << x[i] << y[i];
		}
		label("SimpleLinearRegression<%s> n=%d slope %.3Lg yint %.3Lg noise %.1Lg around %.0Lf", name<T>(), n, a, b, noise, at);
		tick(h.h, n > 2);
		Box<DSP::SimpleLinearRegression<T>> dut((int)rng.in(0, 255), x.data(), y.data(), n);
		compare<T>(*dut, lx, ly, rng);
		// equidistant
		T x0 = c % 3 ? T(rng.sym() * 10) : T(0), dx = c % 3 ? T(rng.loguni(0.1, 10)) : T(1);
		for (int i = 0; i < n; ++i) {
			lx[i] = (LD)x0 + i * (LD)dx;
			y[i] = T(a * lx[i] + b + noise * rng.sym());
			ly[i] = y[i];
		}
		label("SimpleLinearRegression<%s> equidistant n=%d x0=%g dx=%g", name<T>(), n, (double)x0, (double)dx);
		tick(h.h + 1, n > 2);
		if (c % 3) {
			DSP::SimpleLinearRegression<T> u(y.data(), n, x0, dx);
			compare<T>(u, lx, ly, rng);
		} else {
			DSP::SimpleLinearRegression<T> u(y.data(), n);
			compare<T>(u, lx, ly, rng);
		}
		event("regressions", 2);
	}
}

void workload()
{
	Rng rng(17);
	all<float>(rng);
	all<double>(rng);
}
