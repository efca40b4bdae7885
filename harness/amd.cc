// C28: amplitude demodulation
#include "mon.hh"
#include "complex.hh"
#include "utils.hh"
#include "amd.hh"

using namespace mon;

template <typename T>
static void all(Rng &rng)
{
	typedef DSP::Complex<T> C;
	const LD u = eps<T>();
	for (int c = 0; c < cases(300, 8000); ++c) {
		T att = c % 5 == 0 ? T(rng.in(0, 1)) : T(rng.u01()), dec = c % 7 == 0 ? T(rng.in(0, 1)) : T(rng.u01() * 0.1);
		T lo = T(std::abs(rng.loguni(1e-4, 0.1))), hi = T(std::abs(rng.loguni(0.2, 10))), idx = T(c % 6 == 0 ? 1 : c % 2 ? rng.uni(0.1, 1) : rng.uni(0.1, 4));
		int how = c % 4;
		if (c % 8 == 7)
			hi = lo;
		LD level = std::abs(rng.loguni(1e-3, 20));
		run(true, "AMD1<%s> attack=%g decay=%g low=%g high=%g index=%g how=%d", name<T>(), (double)att, (double)dec, (double)lo, (double)hi, (double)idx, how);
		Box<DSP::AMD1<C>> dut((int)rng.in(0, 255));
		LD A = 0, D = 0, L = T(0.001), H = 1, I = 1, avg = 0;
		if (how > 0) {
			dut->index(idx);
			I = idx;
		}
		if (how == 2) {
			dut->agc(att, dec);
			A = att;
			D = dec;
		} else if (how == 3) {
			dut->agc(att, dec, lo, hi);
			A = att;
			D = dec;
			L = lo;
			H = hi;
		}
		LD loss = 0, mag = level;
		for (int t = 0; t < 300; ++t) {
			// settings change amid the stream and leave the average alone
			if (t == 120 && c % 3 == 0) {
				I = idx = T(c % 6 == 0 ? 1 : c % 2 ? rng.uni(0.1, 1) : rng.uni(0.1, 4));
				dut->index(idx);
			}
			if (t == 170 && c % 3 == 1) {
				A = att = T(rng.u01());
				D = dec = T(rng.u01() * 0.1);
				L = T(0.001);
				H = 1;
				dut->agc(att, dec);
			}
			if (t == 220 && c % 3 == 1) {
				A = att = T(rng.u01());
				D = dec = T(rng.u01() * 0.1);
				L = lo = T(std::abs(rng.loguni(1e-4, 0.1)));
				H = hi = T(std::abs(rng.loguni(0.2, 10)));
				dut->agc(att, dec, lo, hi);
			}
			LD phase = rng.uni(0, 6.3);
			mag = t % 8 == 7 ? mag : t % 64 == 62 ? 0 : level * (t / 50 & 1 ? rng.u01() : 1 + 0.3L * rng.sym());
			C in(mag * std::cos(phase), mag * std::sin(phase));
			LD amp = std::hypot((LD)in.real(), (LD)in.imag());
			LD x = amp < avg ? D : A, before = avg;
			avg = (1 - x) * avg + x * amp;
			// rounding carried along by the average
			// equal up to rounding: either rate may have been used
			if (std::abs(amp - before) <= loss + 4 * u * amp)
				x = std::min(A, D);
			loss = (1 - x) * loss + 3 * u * (std::abs(before) + amp);
			avg = std::min(std::max(avg, L), H);
			LD want = (amp / avg * (1 + I) - 1) / I;
			LD tol = ((amp / avg) * (8 * u + loss / avg) * (1 + I) + 4 * u) / I;
			NEAR("amd.output", (*dut)(in), want, tol, t, how);
		}
		event("demodulated samples", 300);
	}
	// a carrier with known modulation, gain held at the peaks
	for (int c = 0; c < cases(30, 500); ++c) {
		T idx = T(rng.uni(0.2, 1));
		LD level = std::abs(rng.loguni(0.01, 0.4)), f = rng.uni(0.001, 0.02);
		run(true, "AMD1<%s> carrier level=%.4Lg index=%g f=%.4Lg", name<T>(), level, (double)idx, f);
		DSP::AMD1<C> dut;
		dut.index(idx);
		dut.agc(1, 0);
		for (int t = 0; t < 3000; ++t) {
			LD msg = t == 0 ? 1 : std::cos(2 * pi() * f * t), mag = level * (1 + idx * msg), phase = 0.3L * t;
			T out = dut(C(mag * std::cos(phase), mag * std::sin(phase)));
			NEAR("amd.message", out, msg, 40 * u * (1 + idx) / idx + 1e-6L * (sizeof(T) == 8 ? 1e-6L : 1), t);
		}
		event("carriers");
	}
}

void workload()
{
	Rng rng(28);
	all<float>(rng);
	all<double>(rng);
}
