// C29: triggers
#include "mon.hh"
#include "trigger.hh"

using namespace mon;

template <typename T>
static void schmitt(Rng &rng)
{
	for (int c = 0; c < cases(400, 10000); ++c) {
		int how = c % 5;
		// thresholds of any size
		T size = c % 3 ? T(1) : T(std::abs(rng.loguni(1e-25, 1e25)));
		T a = size * T(rng.uni(0, 1)), low = T(rng.uni(-1, 0.5)), high = size * T(rng.uni((double)low, 1));
		low *= size;
		bool first = rng.next() & 1;
		if (c % 11 == 0)
			high = low;
		if (c % 13 == 5)
			a = 0;
		if (c % 13 == 6)
			high = 0, low = std::min(low, T(0));
		if (c % 13 == 7)
			low = 0, high = std::abs(high);
		T lo, hi;
		bool state = false;
		DSP::SchmittTrigger<T> *dut;
		char mem[sizeof(DSP::SchmittTrigger<T>)] __attribute__((aligned(16)));
		memset(mem, (int)rng.in(0, 255), sizeof(mem));
		switch (how) {
		case 0: dut = new (mem) DSP::SchmittTrigger<T>(); hi = T(1) / T(3); lo = -hi; break;
		case 1: dut = new (mem) DSP::SchmittTrigger<T>(a); hi = a; lo = -a; break;
		case 2: dut = new (mem) DSP::SchmittTrigger<T>(a, first); hi = a; lo = -a; state = first; break;
		case 3: dut = new (mem) DSP::SchmittTrigger<T>(low, high); lo = low; hi = high; break;
		default: dut = new (mem) DSP::SchmittTrigger<T>(low, high, first); lo = low; hi = high; state = first;
		}
		run(true, "SchmittTrigger<%s> low=%g high=%g first=%d how=%d", name<T>(), (double)lo, (double)hi, state, how);
		int flips = 0;
		for (int t = 0; t < 400; ++t) {
			T x = size * T(rng.uni(-1.5, 1.5));
			switch (rng.in(0, 9)) {
			case 0: x = lo; break;
			case 1: x = hi; break;
			case 2: x = T(std::nextafter((double)lo, -1e30)); break;
			case 3: x = (T)(sizeof(T) == 4 ? std::nextafter((float)hi, 1e30f) : std::nextafter((double)hi, 1e30)); break;
			case 4: x = (T)(sizeof(T) == 4 ? std::nextafter((float)lo, -1e30f) : std::nextafter((double)lo, -1e30)); break;
			case 5: x = (lo + hi) / 2; break;
			case 6: x = T(1e30); break;
			case 7: x = T(-1e30); break;
			case 8: x = T(rng.in(-1, 1)); break;
			}
			bool was = state;
			// only crossing the far threshold changes it
			if (x > hi)
				state = true;
			if (x < lo)
				state = false;
			flips += was != state;
			EQ("schmitt.output", (*dut)(x), state, t, how);
		}
		event("schmitt changes", flips);
	}
}

static void integers(Rng &rng)
{
	for (int c = 0; c < cases(100, 3000); ++c) {
		int low = (int)rng.in(-100, 50), high = (int)rng.in(low, 100);
		run(true, "SchmittTrigger<int> low=%d high=%d", low, high);
		DSP::SchmittTrigger<int> dut(low, high);
		bool state = false;
		for (int t = 0; t < 400; ++t) {
			int x = (int)rng.in(-120, 120);
			state = state ? !(x < low) : x > high;
			EQ("schmitt.int", dut(x), state, t);
		}
	}
}

static void edges(Rng &rng)
{
	// all histories up to twelve steps
	for (int first = -1; first < 2; ++first) {
		for (int bits = 0; bits < 4096; ++bits) {
			run(true, "edges first=%d history=%03x", first, bits);
			DSP::FallingEdgeTrigger fall = first < 0 ? DSP::FallingEdgeTrigger() : DSP::FallingEdgeTrigger(first);
			DSP::RisingEdgeTrigger rise = first < 0 ? DSP::RisingEdgeTrigger() : DSP::RisingEdgeTrigger(first);
			bool last = first > 0;
			for (int i = 0; i < 12; ++i) {
				bool now = bits >> i & 1;
				EQ("edge.falling", fall(now), last && !now, i, bits);
				EQ("edge.rising", rise(now), !last && now, i, bits);
				last = now;
			}
		}
	}
	event("edge histories", 3 * 4096);
}

void workload()
{
	Rng rng(29);
	schmitt<float>(rng);
	schmitt<double>(rng);
	integers(rng);
	edges(rng);
}
