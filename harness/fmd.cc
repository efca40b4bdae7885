// C27: frequency demodulation
#include "mon.hh"
#include "complex.hh"
#include "const.hh"
#include "fmd.hh"

using namespace mon;

typedef std::complex<LD> CLD;

static LD wrapped(LD v)
{
	return v - 2 * pi() * std::nearbyint(v / (2 * pi()));
}

template <typename T>
static void all(Rng &rng)
{
	typedef DSP::Complex<T> C;
	const LD u = eps<T>();
	for (int c = 0; c < cases(400, 10000); ++c) {
		T bw = T(c % 5 ? rng.uni(0.01, 1) : std::abs(rng.loguni(1e-6, 1e2)));
		int kind = c % 5, len = 200;
		bool silent = c % 16 == 15;
		if (c % 7 == 3)
			bw = T(rng.in(1, 4)) / 2;
		const LD far = sizeof(T) == 4 ? 1e15L : 1e100L;
		LD level = c % 6 ? std::abs(rng.loguni(1e-3, 1e3)) : std::abs(rng.loguni((double)(1 / far), (double)far));
		run(true, "FMD<%s> bw=%g kind=%d level=%.4Lg case %d", name<T>(), (double)bw, kind, level, c);
		Box<DSP::FMD1<C>> d1((int)rng.in(0, 255));
		Box<DSP::FMD2<C>> d2((int)rng.in(0, 255));
		Box<DSP::FMD3<C>> d3((int)rng.in(0, 255));
		Box<DSP::FMD4<C>> d4((int)rng.in(0, 255));
		Box<DSP::FMD5<C>> d5((int)rng.in(0, 255));
		if (!silent) {
			d1->bandwidth(bw);
			d2->bandwidth(bw);
			d3->bandwidth(bw);
			d4->bandwidth(bw);
			d5->bandwidth(bw);
		}
		LD scale = silent ? 0 : 1 / (pi() * bw), phase = kind == 3 ? 0 : rng.uni(-3, 3);
		// the demodulators start as if they had seen one before
		CLD p1 = 1, p2 = 1;
		LD speed = rng.uni(-3, 3), before = phase;
		for (int t = 0; t < len; ++t) {
			// constant tone, wandering, jumping, tiny deviations
			if (kind == 0)
				phase += speed;
			else if (kind == 1)
				phase += speed = std::min((LD)3, std::max((LD)-3, speed + 0.3L * rng.sym()));
			else if (kind == 2)
				// half turns among them
				phase += rng.one_in(8) ? (rng.next() & 1 ? 1 : -1) * pi() * (1 - rng.one_in(2) * 1e-3L * rng.u01()) : (LD)rng.uni(-3.1, 3.1);
			else if (kind == 3)
				phase += 1e-3L * rng.sym();
			// a new bandwidth scales from now on
			if (t == 100 && c % 4 == c / 4 % 4) {
				T next = T(std::abs(rng.loguni(1e-3, 10)));
				d1->bandwidth(next);
				d2->bandwidth(next);
				d3->bandwidth(next);
				d4->bandwidth(next);
				d5->bandwidth(next);
				scale = 1 / (pi() * next);
				event("changes of bandwidth");
			}
			// standing still now and then
			if (kind == 2 && rng.one_in(16))
				phase = before;
			before = phase;
			LD mag = level * (c % 3 ? 1 : rng.uni(0.5, 2));
			C in(mag * std::cos(phase), mag * std::sin(phase));
			if (kind == 4) {
				// exactly on the axes and diagonals
				static const int X[] = { 1, 1, 0, -1, -1, -1, 0, 1 }, Y[] = { 0, 1, 1, 1, 0, -1, -1, -1 };
				int i = (int)rng.in(0, 7);
				in = C(mag * X[i], mag * Y[i]);
			}
			CLD z(in.real(), in.imag());
			LD delta = std::arg(z * std::conj(p1));
			LD o1 = (*d1)(in), o2 = (*d2)(in), o3 = (*d3)(in), o4 = (*d4)(in), o5 = (*d5)(in);
			LD tol = 12 * u * scale * pi();
			// the phase advance, either side at the half turn
			if (std::abs(delta) < 3.1415L) {
				NEAR("fmd1.output", o1, scale * delta, tol, t, kind);
				NEAR("fmd2.output", o2, scale * delta, tol, t, kind);
				NEAR("fmd3.output", o3, scale * delta, tol, t, kind);
			} else {
				NEAR("fmd1.output", std::abs(o1), scale * std::abs(delta), tol, t, kind);
				NEAR("fmd2.output", std::abs(o2), scale * std::abs(delta), tol, t, kind);
				NEAR("fmd3.output", std::abs(o3), scale * std::abs(delta), tol, t, kind);
			}
			LE("fmd1.range", std::abs(o1), scale * pi() + tol, t, kind);
			// sine of the advance
			LD r4 = std::abs(p1) / std::abs(z);
			NEAR("fmd4.output", o4, scale * std::imag(std::conj(p1) * z) / std::norm(z), 8 * u * scale * r4, t, kind);
			LD r5 = (std::abs(z) + std::abs(p2)) / std::abs(p1);
			NEAR("fmd5.output", o5, scale / 2 * std::imag(std::conj(p1) * (z - p2)) / std::norm(p1), 8 * u * scale * r5, t, kind);
			if (c % 3 && t > 1 && kind < 4) {
				// constant envelope: what the tone says
				NEAR("fmd4.sine", o4, scale * std::sin(delta), 20 * u * scale, t, kind);
				if (kind == 3) {
					NEAR("fmd4.small", o4, scale * delta, 20 * u * scale + 1e-6L * scale * std::abs(delta), t, kind);
					NEAR("fmd5.small", o5, scale / 2 * (delta + std::arg(p1 * std::conj(p2))), 20 * u * scale + 2e-9L * scale, t, kind);
				}
				if (kind == 0)
					NEAR("fmd5.tone", o5, scale * std::sin(wrapped(speed)), 30 * u * scale, t, kind);
			}
			p2 = p1;
			p1 = z;
		}
		event("demodulated samples", 5 * len);
	}
}

void workload()
{
	Rng rng(27);
	all<float>(rng);
	all<double>(rng);
}
