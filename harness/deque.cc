// C13: the fixed-size double-ended queue behaves like an unbounded one until full
#include <deque>
#include "mon.hh"
#include "death.hh"
#include "complex.hh"
#include "deque.hh"

using namespace mon;

template <typename T> static T make(Rng &r) { return T(r.in(-1000000, 1000000)); }
template <> DSP::Complex<float> make(Rng &r) { return DSP::Complex<float>(r.in(-1000000, 1000000), r.in(-1000000, 1000000)); }

template <typename T, int SIZE>
struct Test
{
	typedef DSP::Deque<T, SIZE> DUT;
	static void compare(DUT &dut, std::deque<T> &model, int step)
	{
		EQ("deque.size", dut.size(), (int)model.size(), step, SIZE);
		EQ("deque.max_size", dut.max_size(), SIZE, step, SIZE);
		EQ("deque.empty", dut.empty(), model.empty(), step, SIZE);
		EQ("deque.full", dut.full(), (int)model.size() == SIZE, step, SIZE);
		if (!model.empty()) {
			OK("deque.front", dut.front() == model.front(), step, SIZE);
			OK("deque.back", dut.back() == model.back(), step, SIZE);
		}
	}
	static void drain(DUT dut, std::deque<T> model, bool front)
	{
		for (int i = 0; !model.empty(); ++i) {
			compare(dut, model, -i);
			if (front) {
				dut.pop_front();
				model.pop_front();
			} else {
				dut.pop_back();
				model.pop_back();
			}
		}
		compare(dut, model, -1);
	}
	static void histories(Rng &rng)
	{
		for (int c = 0; c < cases(8, 120); ++c) {
			int len = (int)rng.in(1, 12 * SIZE + 10);
			// fill-biased, drain-biased, balanced, one-sided
			int push = (int)rng.in(2, 8), front = (int)rng.in(0, 4), clears = rng.one_in(2) ? 0 : (int)rng.in(5, 40);
			label("Deque<%d> case %d len=%d push=%d/10 front=%d/4 clear=1/%d", SIZE, c, len, push, front, clears);
			Hash h;
			h << SIZE << (int)sizeof(T);
			Box<DUT> dut((int)rng.in(0, 255));
			std::deque<T> model;
			compare(*dut, model, 0);
			for (int s = 1; s <= len; ++s) {
				bool at_front = rng.in(1, 4) <= front;
				int op;
				if (clears && rng.one_in(clears)) {
					dut->clear();
					model.clear();
					op = 9;
				} else if (rng.in(0, 9) < push ? (int)model.size() < SIZE : model.empty()) {
					T v = make<T>(rng);
					if (at_front) {
						dut->push_front(v);
						model.push_front(v);
					} else {
						dut->push_back(v);
						model.push_back(v);
					}
					op = 1 + at_front;
				} else {
					if (at_front) {
						dut->pop_front();
						model.pop_front();
					} else {
						dut->pop_back();
						model.pop_back();
					}
					op = 3 + at_front;
				}
				h << op;
				compare(*dut, model, s);
				if (rng.one_in(16)) {
					// content, seen from both ends
					drain(*dut, model, true);
					drain(*dut, model, false);
				}
				if ((int)model.size() == SIZE)
					event("full deque");
			}
			drain(*dut, model, c & 1);
			tick(h.h, len > 2);
			event("deque operations", len);
		}
	}
	// more elements than a 16 bit index can address, round and round
	static void large(Rng &rng)
	{
		run(true, "Deque<%d> large", SIZE);
		Box<DUT> dut((int)rng.in(0, 255));
		std::deque<T> model;
		int step = 0;
		for (int turn = 0; turn < 4; ++turn) {
			for (; (int)model.size() < SIZE; ++step) {
				T v = make<T>(rng);
				if (turn & 1) {
					dut->push_back(v);
					model.push_back(v);
				} else {
					dut->push_front(v);
					model.push_front(v);
				}
				compare(*dut, model, step);
			}
			for (int left = turn == 3 ? 0 : (int)rng.in(0, SIZE / 3); (int)model.size() > left; ++step) {
				if (turn < 2) {
					dut->pop_back();
					model.pop_back();
				} else {
					dut->pop_front();
					model.pop_front();
				}
				compare(*dut, model, step);
			}
		}
		event("deque operations", step);
	}
	static void misuse()
	{
		run(true, "Deque<%d> misuse", SIZE);
		EQ("deque.trap.push_back", end_of([]{ DUT d; for (int i = 0; i <= SIZE; ++i) d.push_back(T(i)); }), SIGABRT);
		EQ("deque.trap.push_front", end_of([]{ DUT d; for (int i = 0; i <= SIZE; ++i) d.push_front(T(i)); }), SIGABRT);
		EQ("deque.trap.pop_back", end_of([]{ DUT d; d.pop_back(); }), SIGABRT);
		EQ("deque.trap.pop_front", end_of([]{ DUT d; d.pop_front(); }), SIGABRT);
		EQ("deque.trap.back", end_of([]{ DUT d; d.push_back(T(0)); d.pop_front(); volatile bool b = d.back() == T(0); (void)b; }), SIGABRT);
		EQ("deque.trap.front", end_of([]{ DUT d; d.push_back(T(0)); d.clear(); volatile bool b = d.front() == T(0); (void)b; }), SIGABRT);
		// filling up exactly is fine
		EQ("deque.trap.exact", end_of([]{ DUT d; for (int i = 0; i < SIZE; ++i) d.push_back(T(i)); }), 0);
		event("trapped misuses", 6);
	}
};

template <typename T, int... SIZE>
static void all(Rng &rng)
{
	int d[] = { (Test<T, SIZE>::histories(rng), 0)... };
	(void)d;
}

void workload()
{
	Rng rng(13);
	all<int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 33, 64, 100>(rng);
	all<double, 1, 2, 3, 7, 12>(rng);
	all<short, 1, 4, 20>(rng);
	all<DSP::Complex<float>, 1, 2, 5, 16>(rng);
	Test<int, 40000>::large(rng);
	Test<short, 70000>::large(rng);
	Test<int, 1>::misuse();
	Test<int, 2>::misuse();
	Test<int, 5>::misuse();
	Test<double, 16>::misuse();
}
