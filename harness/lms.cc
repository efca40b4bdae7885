// C34: adaptive filters
#include "mon.hh"
#include "complex.hh"
#include "lms.hh"

using namespace mon;

typedef std::complex<LD> CLD;

template <typename T, int SIZE>
static void reals(Rng &rng)
{
	const LD u = eps<T>();
	for (int c = 0; c < cases(12, 300); ++c) {
		LD level = c % 6 == 4 ? std::abs(rng.loguni(1e-8, 1e8)) : std::abs(rng.loguni(1e-2, 1e2));
		T mu = c % 3 ? T(1) : T(rng.uni(0.001, 1.9));
		bool plant = c & 1 || c % 6 == 4;
		int silence = c % 4 == 2 ? (int)rng.in(1, 2 * SIZE + 2) : 0;
		// later on, long enough to be all there is
		int pause = c % 4 == 1 ? 20 * SIZE : c % 4 == 3 ? 3 * SIZE : -1, quiet = (int)rng.in(1, 2 * SIZE + 2);
		run(true, "NLMS<%s,%d> mu=%g level=%.4Lg plant=%d silence=%d case %d", name<T>(), SIZE, (double)mu, level, plant, silence, c);
		Box<DSP::NLMS<T, SIZE>> dut((int)rng.in(0, 255));
		const T *f = *dut;
		for (int i = 0; i < SIZE; ++i)
			NEAR("nlms.start", f[i], 0, 0, i, SIZE);
		std::vector<LD> x(SIZE, 0), w(SIZE);
		for (int i = 0; i < SIZE; ++i)
			w[i] = rng.sym();
		LD first = 0, last = 0;
		int len = 60 * SIZE + 200;
		for (int t = 0; t < len; ++t) {
			T in = T(t < silence || (t >= pause && t < pause + quiet && pause >= 0) ? 0 : level * rng.wave());
			x.erase(x.begin());
			x.push_back(in);
			LD des = 0;
			for (int i = 0; i < SIZE; ++i)
				des += plant ? w[i] * x[i] : 0;
			T d = T(plant ? des : level * rng.wave());
			std::vector<LD> old(f, f + SIZE);
			LD est = 0, mag = std::abs((LD)d), power = 0;
			for (int i = 0; i < SIZE; ++i) {
				est += old[i] * x[i];
				mag += std::abs(old[i] * x[i]);
				power += x[i] * x[i];
			}
			// held, taken up again, or changed amid the stream
			if (c % 3 == 0 && rng.in(0, 7) == 0)
				mu = T(rng.in(0, 2) ? rng.uni(0.001, 1.9) : rng.in(0, 2));
			T err = c % 3 && c & 1 ? (*dut)(in, d) : (*dut)(in, d, mu);
			// a priori error, observed through the coefficients before
			LD tol = u * (4 + SIZE) * mag;
			NEAR("nlms.error", err, (LD)d - est, tol, t, SIZE);
			LD post = 0;
			for (int i = 0; i < SIZE; ++i) {
				LD want = power == 0 ? old[i] : old[i] + mu / power * ((LD)d - est) * x[i];
				LD step = power == 0 ? 0 : std::abs(x[i]) / power * mu;
				NEAR("nlms.update", f[i], want, u * std::abs(want) + step * (tol + u * (8 + SIZE) * std::abs((LD)d - est)) + u * std::abs(old[i]), t, i);
				post += f[i] * x[i];
			}
			// full step: the new coefficients explain the sample
			if (mu == 1 && power > 0)
				NEAR("nlms.posterior", post, (LD)d, 4 * tol + u * (8 + 2 * SIZE) * mag, t, SIZE);
			if (t == silence + SIZE)
				first = std::abs((LD)err);
			last = std::max(t > len - 20 ? last : 0, std::abs((LD)err));
			event(power == 0 ? "steps without power" : "steps");
		}
		if (plant && SIZE <= 16) {
			LE("nlms.converged", last, level * (1e-3L + 300 * u * SIZE), SIZE);
			for (int i = 0; i < SIZE; ++i)
				NEAR("nlms.identified", f[i], w[i], 1e-2L, i, SIZE);
		}
	}
}

template <typename T, int SIZE>
static void complexes(Rng &rng)
{
	typedef DSP::Complex<T> C;
	const LD u = eps<T>();
	auto see = [](C v) { return CLD(v.real(), v.imag()); };
	for (int c = 0; c < cases(12, 300); ++c) {
		LD level = c % 6 == 4 ? std::abs(rng.loguni(1e-8, 1e8)) : std::abs(rng.loguni(1e-2, 1e2));
		T mu = c % 3 ? T(1) : T(rng.uni(0.001, 1.9));
		bool plant = c & 1 || c % 6 == 4;
		int silence = c % 4 == 2 ? (int)rng.in(1, 2 * SIZE + 2) : 0;
		// later on, long enough to be all there is
		int pause = c % 4 == 1 ? 20 * SIZE : c % 4 == 3 ? 3 * SIZE : -1, quiet = (int)rng.in(1, 2 * SIZE + 2);
		run(true, "NCLMS<%s,%d> mu=%g level=%.4Lg plant=%d silence=%d case %d", name<T>(), SIZE, (double)mu, level, plant, silence, c);
		Box<DSP::NCLMS<C, SIZE>> dut((int)rng.in(0, 255));
		const C *f = *dut;
		for (int i = 0; i < SIZE; ++i)
			OK("nclms.start", f[i].real() == 0 && f[i].imag() == 0, i, SIZE);
		std::vector<CLD> x(SIZE, 0), w(SIZE);
		for (int i = 0; i < SIZE; ++i)
			w[i] = CLD(rng.sym(), rng.sym());
		LD last = 0;
		int len = 60 * SIZE + 200;
		for (int t = 0; t < len; ++t) {
			CLD v = level * CLD(rng.waves());
			C in = t < silence || (t >= pause && t < pause + quiet && pause >= 0) ? C(0, 0) : C(v.real(), v.imag());
			x.erase(x.begin());
			x.push_back(see(in));
			CLD des = 0;
			for (int i = 0; i < SIZE; ++i)
				des += plant ? w[i] * x[i] : 0;
			C d = plant ? C(des.real(), des.imag()) : C(level * rng.sym(), level * rng.sym());
			std::vector<CLD> old(SIZE);
			CLD est = 0;
			LD mag = std::abs(see(d)), power = 0;
			for (int i = 0; i < SIZE; ++i) {
				old[i] = see(f[i]);
				est += old[i] * x[i];
				mag += std::abs(old[i] * x[i]);
				power += std::norm(x[i]);
			}
			// held, taken up again, or changed amid the stream
			if (c % 3 == 0 && rng.in(0, 7) == 0)
				mu = T(rng.in(0, 2) ? rng.uni(0.001, 1.9) : rng.in(0, 2));
			C e = c % 3 && c & 1 ? (*dut)(in, d) : (*dut)(in, d, mu);
			CLD want = see(d) - est;
			LD tol = u * (6 + SIZE) * mag;
			NEAR("nclms.error", e.real(), want.real(), tol, t, SIZE);
			NEAR("nclms.error", e.imag(), want.imag(), tol, t, SIZE);
			CLD post = 0;
			for (int i = 0; i < SIZE; ++i) {
				CLD next = power == 0 ? old[i] : old[i] + (LD)mu / power * want * std::conj(x[i]);
				LD step = power == 0 ? 0 : std::abs(x[i]) / power * mu;
				LD t2 = u * std::abs(next) + step * (tol + u * (8 + SIZE) * std::abs(want)) + u * std::abs(old[i]);
				NEAR("nclms.update", f[i].real(), next.real(), t2, t, i);
				NEAR("nclms.update", f[i].imag(), next.imag(), t2, t, i);
				post += see(f[i]) * x[i];
			}
			if (mu == 1 && power > 0) {
				NEAR("nclms.posterior", post.real(), d.real(), 4 * tol + u * (8 + 2 * SIZE) * mag, t, SIZE);
				NEAR("nclms.posterior", post.imag(), d.imag(), 4 * tol + u * (8 + 2 * SIZE) * mag, t, SIZE);
			}
			last = std::max(t > len - 20 ? last : 0, std::abs(see(e)));
			event(power == 0 ? "steps without power" : "steps");
		}
		if (plant && SIZE <= 16) {
			LE("nclms.converged", last, level * (1e-3L + 300 * u * SIZE), SIZE);
			for (int i = 0; i < SIZE; ++i)
				NEAR("nclms.identified", std::abs(see(f[i]) - w[i]), 0, 1e-2L, i, SIZE);
		}
	}
}

template <typename T>
static void all(Rng &rng)
{
	reals<T, 1>(rng);
	reals<T, 2>(rng);
	reals<T, 3>(rng);
	reals<T, 4>(rng);
	reals<T, 7>(rng);
	reals<T, 16>(rng);
	reals<T, 32>(rng);
	reals<T, 100>(rng);
	complexes<T, 1>(rng);
	complexes<T, 2>(rng);
	complexes<T, 3>(rng);
	complexes<T, 4>(rng);
	complexes<T, 7>(rng);
	complexes<T, 16>(rng);
}

void workload()
{
	Rng rng(34);
	all<float>(rng);
	all<double>(rng);
}
