/*
Monitor runtime: oracle verdicts, event counters, deterministic randomness.

The verdict functions live in mon.cc, which is always compiled with strict
floating point, so that a NaN produced by the code under test can not be
optimized into a pass when the harness itself is built with -ffast-math.
*/
#pragma once

#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>

namespace mon {

typedef long double LD;

extern uint64_t seed;
extern int thorough;	// 0: quick, 1: thorough
extern int tiny;	// a fraction of quick, for very slow instrumentation
extern int quiet;	// do not stop at functional mismatches (sanitizer-only runs)
extern const char *scratch;

// number of cases: q on the quick tier, t on the thorough tier
inline int64_t cases(int64_t q, int64_t t) { return thorough ? t : tiny ? (q + tiny - 1) / tiny : q; }

uint64_t mix(uint64_t x);

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t tag = 0) : s(mix(seed * 0x9E3779B97F4A7C15ull + mix(tag + 1))) {}
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
	// uniform on [a, b]
	int64_t in(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); }
	bool one_in(int n) { return next() % (uint64_t)n == 0; }
	double u01() { return (double)(next() >> 11) * 0x1p-53; }
	double uni(double a, double b) { return a + (b - a) * u01(); }
	double sym() { return uni(-1, 1); }
	// samples of a signal: random ones, mixed with repeated, negated and exact ones
	double last = 0;
	double wave()
	{
		switch (next() % 32) {
		case 0: case 1: case 2: return last;
		case 3: return last = -last;
		case 4: return last = 0;
		case 5: return last = next() & 1 ? 1 : -1;
		}
		return last = sym();
	}
	// the same of complex ones
	std::complex<double> past = 0;
	std::complex<double> waves()
	{
		double re = sym(), im = sym();
		switch (next() % 32) {
		case 0: case 1: case 2: return past;
		case 3: return past = -past;
		case 4: return past = std::conj(past);
		case 5: return past = 0;
		case 6: return past = re;
		case 7: return past = std::complex<double>(0, im);
		case 8: return past = std::complex<double>(re, next() & 1 ? re : -re);
		}
		return past = std::complex<double>(re, im);
	}
	// random sign, log-uniform magnitude in [a, b]
	double loguni(double a, double b);
	template <typename T> void shuffle(T *a, int n)
	{
		for (int i = n - 1; i > 0; --i)
			std::swap(a[i], a[in(0, i)]);
	}
};

struct Site
{
	const char *key;
	uint64_t n;
	double worst;
	Site *link;
	explicit Site(const char *key);
};

// what is being executed, shown with violations and on a crash
void label(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// one case: counted, hashed for distinctness
void tick(uint64_t hash, bool nontrivial = true);
// label() and tick() in one
void run(bool nontrivial, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// observed events
void event(const char *name, uint64_t n = 1);

void near(Site &s, LD got, LD want, LD tol, long i = -1, long j = -1);
void eq(Site &s, long long got, long long want, long i = -1, long j = -1);
void ok(Site &s, bool cond, long i = -1, long j = -1);
void ge(Site &s, LD got, LD bound, long i = -1, long j = -1);
void le(Site &s, LD got, LD bound, long i = -1, long j = -1);
bool finite(LD v);
// harness is broken or observed nothing: not a verdict
void inconclusive(const char *why);
bool failed();

#define MON_(fn, key, ...) do { static ::mon::Site site_(key); ::mon::fn(site_, __VA_ARGS__); } while (0)
#define NEAR(key, ...) MON_(near, key, __VA_ARGS__)
#define EQ(key, ...) MON_(eq, key, __VA_ARGS__)
#define OK(key, ...) MON_(ok, key, __VA_ARGS__)
#define GE(key, ...) MON_(ge, key, __VA_ARGS__)
#define LE(key, ...) MON_(le, key, __VA_ARGS__)

inline uint64_t bits(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
inline uint64_t bits(float v) { uint32_t u; memcpy(&u, &v, 4); return u; }

struct Hash
{
	uint64_t h = 0xcbf29ce484222325ull;
	void raw(uint64_t v) { h = mix(h ^ v) + 0x2545F4914F6CDD1Dull; }
	template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
	Hash &operator << (T v) { raw((uint64_t)v); return *this; }
	Hash &operator << (double v) { raw(bits(v)); return *this; }
	Hash &operator << (float v) { raw(bits(v)); return *this; }
	template <typename T, typename std::enable_if<std::is_class<T>::value, int>::type = 0>
	Hash &operator << (T v) { return *this << v.real() << v.imag(); }
};

// caller-owned buffer of exactly n elements: red zones under the address
// sanitizer, canaries everywhere
template <typename T>
class Buf
{
	static const int PAD = 16;
	T *mem;
	int n;
	unsigned char fill;
	bool whole;
public:
	explicit Buf(int n, unsigned char fill = 0xA5) : n(n), fill(fill)
	{
#if defined(__SANITIZE_ADDRESS__) || defined(VP_MSAN)
		whole = true;
		mem = (T *)malloc(n ? n * sizeof(T) : 1);
#else
		whole = false;
		mem = (T *)malloc((n + 2 * PAD) * sizeof(T));
		memset((void *)mem, fill, (n + 2 * PAD) * sizeof(T));
		mem += PAD;
#endif
#ifndef VP_MSAN
		memset((void *)mem, fill, n * sizeof(T));
#endif
	}
	Buf(const Buf &) = delete;
	~Buf()
	{
		if (!whole) {
			const unsigned char *p = (const unsigned char *)(mem - PAD), *q = (const unsigned char *)(mem + n);
			bool intact = true;
			for (size_t i = 0; i < PAD * sizeof(T); ++i)
				intact = intact && p[i] == fill && q[i] == fill;
			OK("bounds.canary", intact);
		}
		free((void *)(whole ? mem : mem - PAD));
	}
	operator T * () { return mem; }
	T *data() { return mem; }
	T &operator [] (int i) { return mem[i]; }
	int size() const { return n; }
};

// leaves the pattern where the locals of the next call will be
void scribble(int pattern);

// object constructed in memory of a given prior content, on a stack of that
// content too: nothing belongs to it beyond its size
template <typename T>
class Box
{
	static const int PAD = 64;
	T *obj;
	char *mem;
public:
	template <typename... ARGS>
	explicit Box(int pattern, ARGS &&... args)
	{
		size_t align = alignof(T) < sizeof(void *) ? sizeof(void *) : alignof(T);
		void *p = 0;
#if defined(__SANITIZE_ADDRESS__) || defined(VP_MSAN)
		if (posix_memalign(&p, align, sizeof(T)))
			inconclusive("no memory");
		mem = (char *)p;
#else
		if (posix_memalign(&p, align > PAD ? align : PAD, sizeof(T) + 2 * PAD))
			inconclusive("no memory");
		memset(p, 0xC3, sizeof(T) + 2 * PAD);
		mem = (char *)p + PAD;
#endif
#ifndef VP_MSAN
		memset(mem, pattern, sizeof(T));
		scribble(pattern);
#else
		(void)pattern;
#endif
		obj = new (mem) T(std::forward<ARGS>(args)...);
	}
	Box(const Box &) = delete;
	~Box()
	{
		obj->~T();
#if defined(__SANITIZE_ADDRESS__) || defined(VP_MSAN)
		free(mem);
#else
		bool intact = true;
		for (size_t i = 0; i < PAD; ++i)
			intact = intact && (unsigned char)mem[-1 - (int)i] == 0xC3 && (unsigned char)mem[sizeof(T) + i] == 0xC3;
		OK("bounds.object", intact);
		free(mem - PAD);
#endif
	}
	T &operator * () { return *obj; }
	T *operator -> () { return obj; }
};

// strict reference arithmetic (mon.cc)
LD pi();
LD cosq(LD n, LD N);	// cos(2 Pi n / N)
LD sinq(LD n, LD N);

template <typename T> constexpr LD eps() { return std::numeric_limits<T>::epsilon(); }
template <typename T> const char *name();
template <> inline const char *name<float>() { return "float"; }
template <> inline const char *name<double>() { return "double"; }
template <> inline const char *name<long double>() { return "long double"; }
template <> inline const char *name<int>() { return "int"; }

}

// the workload of a harness
void workload();

using std::min;
using std::max;
