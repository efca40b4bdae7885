// C18: complex arithmetic
#include "mon.hh"
#include "complex.hh"

using namespace mon;

template <typename T>
struct Test
{
	typedef DSP::Complex<T> C;
	static void near2(C got, LD re, LD im, LD dre, LD dim, int op)
	{
		NEAR("complex.re", got.real(), re, dre, op);
		NEAR("complex.im", got.imag(), im, dim, op);
	}
	static void pair(T a, T b, T c, T d)
	{
		const LD u = eps<T>();
		const C x(a, b), y(c, d);
		LD A = a, B = b, S = c, D = d, n2 = S * S + D * D;
		LD mr = std::abs(A * S) + std::abs(B * D), mi = std::abs(A * D) + std::abs(B * S);
		near2(x + y, A + S, B + D, u * std::abs(A + S), u * std::abs(B + D), 0);
		near2(x - y, A - S, B - D, u * std::abs(A - S), u * std::abs(B - D), 1);
		near2(+x, A, B, 0, 0, 2);
		near2(-x, -A, -B, 0, 0, 3);
		near2(x * y, A * S - B * D, A * D + B * S, 2 * u * mr, 2 * u * mi, 4);
		near2(a * y, A * S, A * D, u * std::abs(A * S), u * std::abs(A * D), 5);
		near2(DSP::conj(x), A, -B, 0, 0, 6);
		// only zero itself can not divide
		if (c != 0)
			near2(x / c, A / S, B / S, 2 * u * std::abs(A / S), 2 * u * std::abs(B / S), 7);
		if (n2 > 0)
			near2(x / y, (A * S + B * D) / n2, (B * S - A * D) / n2, 5 * u * mr / n2, 5 * u * mi / n2, 8);
		if (n2 > 0)
			near2(a / y, A * S / n2, -A * D / n2, 5 * u * std::abs(A * S) / n2, 5 * u * std::abs(A * D) / n2, 9);
		NEAR("complex.norm", DSP::norm(x), A * A + B * B, 2 * u * (A * A + B * B));
		NEAR("complex.abs", DSP::abs(x), std::hypot(A, B), 3 * u * std::hypot(A, B));
		NEAR("complex.arg", DSP::arg(x), std::atan2(B, A), 2 * u * std::abs(std::atan2(B, A)));
		T ph = T(std::fmod(D, 20.L));
		C p = DSP::polar(T(std::abs((LD)a)), ph);
		near2(p, std::abs(A) * std::cos((LD)ph), std::abs(A) * std::sin((LD)ph), 6 * u * std::abs(A), 6 * u * std::abs(A), 10);
		// compound assignments: value, returned value, and operands that are the same object
		C z, r;
		z = x; r = z += y; near2(z, A + S, B + D, u * std::abs(A + S), u * std::abs(B + D), 20); near2(r, z.real(), z.imag(), 0, 0, 21);
		z = x; r = z -= y; near2(z, A - S, B - D, u * std::abs(A - S), u * std::abs(B - D), 22); near2(r, z.real(), z.imag(), 0, 0, 23);
		z = x; r = z *= y; near2(z, A * S - B * D, A * D + B * S, 2 * u * mr, 2 * u * mi, 24); near2(r, z.real(), z.imag(), 0, 0, 25);
		z = x; r = z *= c; near2(z, A * S, B * S, u * std::abs(A * S), u * std::abs(B * S), 26); near2(r, z.real(), z.imag(), 0, 0, 27);
		if (c != 0) {
			z = x; r = z /= c; near2(z, A / S, B / S, 2 * u * std::abs(A / S), 2 * u * std::abs(B / S), 28); near2(r, z.real(), z.imag(), 0, 0, 29);
			z = y; z /= z.real(); near2(z, 1, D / S, 2 * u, 2 * u * std::abs(D / S), 38);
		}
		if (n2 > 0) {
			z = x; r = z /= y; near2(z, (A * S + B * D) / n2, (B * S - A * D) / n2, 5 * u * mr / n2, 5 * u * mi / n2, 30); near2(r, z.real(), z.imag(), 0, 0, 31);
			z = y; z /= z; near2(z, 1, 0, 6 * u, 6 * u, 35);
		}
		z = y; z += z; near2(z, 2 * S, 2 * D, 0, 0, 32);
		z = y; z -= z; near2(z, 0, 0, 0, 0, 33);
		z = y; z *= z; near2(z, S * S - D * D, 2 * S * D, 2 * u * n2, 2 * u * n2, 34);
		z = y; z *= z.real(); near2(z, S * S, S * D, u * S * S, u * std::abs(S * D), 36);
		z = y; z *= z.imag(); near2(z, S * D, D * D, u * std::abs(S * D), u * D * D, 37);
		z = y; r = z = a; near2(z, A, 0, 0, 0, 40); near2(r, A, 0, 0, 0, 41);
		z = y; z.real(a); near2(z, A, D, 0, 0, 42);
		z = y; z.imag(b); near2(z, S, B, 0, 0, 43);
		near2(C(), 0, 0, 0, 0, 44);
		near2(C(a), A, 0, 0, 0, 45);
		near2(C(a, b), A, B, 0, 0, 46);
		T p0 = a == 0 ? T(1) : T(2) * a, p1 = b == 0 ? T(-1) : T(2) * b;
		OK("complex.equal", x == C(a, b) && !(x != C(a, b)));
		// next to each other
		T n0 = a == 0 ? T(1e-30) : std::nextafter(a, p0), n1 = b == 0 ? T(1e-30) : std::nextafter(b, p1);
		OK("complex.unequal", x != C(a, n1) && !(x == C(a, n1)));
		OK("complex.unequal", x != C(n0, b) && !(x == C(n0, b)));
		OK("complex.unequal", x != C(a, p1) && !(x == C(a, p1)));
		OK("complex.unequal", x != C(p0, b) && !(x == C(p0, b)));
	}
	static void all(Rng &rng)
	{
		Box<C> fresh(0xFF);
		near2(*fresh, 0, 0, 0, 0, 47);
		for (int i = 0; i < cases(30000, 1500000); ++i) {
			double m = i % 2 ? 1e3 : i % 4 ? 1e6 : i % 8 ? 1e8 : 10;
			T a = T(rng.loguni(1 / m, m)), b = T(rng.loguni(1 / m, m)), c = T(rng.loguni(1 / m, m)), d = T(rng.loguni(1 / m, m));
			// on the axes
			if (i % 8 == 5) {
				T *part[] = { &a, &b, &c, &d };
				*part[rng.in(0, 3)] = 0;
				*part[rng.in(0, 3)] = 0;
			}
			// on the diagonals
			if (i % 8 == 6) {
				b = rng.next() & 1 ? a : -a;
				d = rng.next() & 1 ? c : -c;
			}
			// twice the same, up to signs
			if (i % 16 == 9) {
				c = rng.next() & 1 ? a : -a;
				d = rng.next() & 1 ? b : -b;
			}
			label("Complex<%s> (%.17g, %.17g) (%.17g, %.17g)", name<T>(), (double)a, (double)b, (double)c, (double)d);
			Hash h;
			h << a << b << c << d;
			tick(h.h);
			pair(a, b, c, d);
			// any direction at any distance
			T far = T(std::abs(rng.loguni(1e-28, 1e28)));
			NEAR("complex.arg.far", DSP::arg(C(far * a, far * b)), std::atan2((LD)(far * b), (LD)(far * a)), 2 * eps<T>() * std::abs(std::atan2((LD)(far * b), (LD)(far * a))));
			event("operations", 48);
		}
		static const T S[] = { T(1), T(-1), T(0.5), T(-2), T(3), T(0) };
		for (T a : S)
			for (T b : S)
				for (T c : S)
					for (T d : S) {
						run(true, "Complex<%s> (%g, %g) (%g, %g)", name<T>(), (double)a, (double)b, (double)c, (double)d);
						pair(a, b, c, d);
					}
	}
};

void workload()
{
	Rng rng(18);
	Test<float>::all(rng);
	Test<double>::all(rng);
}
