// C14: the fixed-size stack behaves like an unbounded one until full
#include "mon.hh"
#include "death.hh"
#include "complex.hh"
#include "stack.hh"

using namespace mon;

template <typename T, int SIZE>
struct Test
{
	typedef DSP::Stack<T, SIZE> DUT;
	static void compare(DUT &dut, std::vector<T> &model, int step)
	{
		EQ("stack.size", dut.size(), (int)model.size(), step, SIZE);
		EQ("stack.max_size", dut.max_size(), SIZE, step, SIZE);
		EQ("stack.empty", dut.empty(), model.empty(), step, SIZE);
		EQ("stack.full", dut.full(), (int)model.size() == SIZE, step, SIZE);
		if (!model.empty()) {
			OK("stack.top", dut.top() == model.back(), step, SIZE);
			OK("stack.first", dut.first() == model.front(), step, SIZE);
		}
	}
	static void drain(DUT dut, std::vector<T> model)
	{
		for (; !model.empty(); model.pop_back(), dut.pop())
			compare(dut, model, -1);
		compare(dut, model, -1);
	}
	static void histories(Rng &rng)
	{
		for (int c = 0; c < cases(10, 200); ++c) {
			int len = (int)rng.in(1, 12 * SIZE + 10), push = (int)rng.in(3, 8);
			int clears = rng.one_in(2) ? 0 : (int)rng.in(5, 40);
			label("Stack<%d> case %d len=%d push=%d/10 clear=1/%d", SIZE, c, len, push, clears);
			Hash h;
			h << SIZE << (int)sizeof(T);
			Box<DUT> dut((int)rng.in(0, 255));
			std::vector<T> model;
			compare(*dut, model, 0);
			for (int s = 1; s <= len; ++s) {
				int op;
				if (clears && rng.one_in(clears)) {
					dut->clear();
					model.clear();
					op = 1;
				} else if (rng.in(0, 9) < push ? (int)model.size() < SIZE : model.empty()) {
					T v = T(rng.in(-1000000, 1000000));
					dut->push(v);
					model.push_back(v);
					op = 2;
				} else {
					dut->pop();
					model.pop_back();
					op = 3;
				}
				h << op;
				compare(*dut, model, s);
				if (rng.one_in(16))
					drain(*dut, model);
				if ((int)model.size() == SIZE)
					event("full stack");
			}
			drain(*dut, model);
			tick(h.h, len > 2);
			event("stack operations", len);
		}
	}
	// more elements than a 16 bit index can address
	static void large(Rng &rng)
	{
		run(true, "Stack<%d> large", SIZE);
		Box<DUT> dut((int)rng.in(0, 255));
		std::vector<T> model;
		for (int turn = 0; turn < 2; ++turn) {
			while ((int)model.size() < SIZE) {
				T v = T(rng.in(-1000000, 1000000));
				dut->push(v);
				model.push_back(v);
				compare(*dut, model, (int)model.size());
			}
			for (int left = turn ? 0 : (int)rng.in(1, SIZE / 3); (int)model.size() > left;) {
				dut->pop();
				model.pop_back();
				compare(*dut, model, (int)model.size());
			}
		}
		event("stack operations", 4 * SIZE);
	}
	static void misuse()
	{
		run(true, "Stack<%d> misuse", SIZE);
		EQ("stack.trap.push", end_of([]{ DUT d; for (int i = 0; i <= SIZE; ++i) d.push(T(i)); }), SIGABRT);
		EQ("stack.trap.pop", end_of([]{ DUT d; d.pop(); }), SIGABRT);
		EQ("stack.trap.pop", end_of([]{ DUT d; d.push(T(0)); d.pop(); d.pop(); }), SIGABRT);
		EQ("stack.trap.top", end_of([]{ DUT d; volatile bool b = d.top() == T(0); (void)b; }), SIGABRT);
		EQ("stack.trap.first", end_of([]{ DUT d; d.push(T(0)); d.clear(); volatile bool b = d.first() == T(0); (void)b; }), SIGABRT);
		EQ("stack.trap.exact", end_of([]{ DUT d; for (int i = 0; i < SIZE; ++i) d.push(T(i)); }), 0);
		event("trapped misuses", 5);
	}
};

template <typename T, int... SIZE>
static void all(Rng &rng)
{
	int d[] = { (Test<T, SIZE>::histories(rng), 0)... };
	(void)d;
}

void workload()
{
	Rng rng(14);
	all<int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 33, 64, 100, 1000>(rng);
	all<double, 1, 2, 3, 7, 12>(rng);
	all<short, 1, 4, 20>(rng);
	all<DSP::Complex<float>, 1, 2, 5, 16>(rng);
	Test<int, 40000>::large(rng);
	Test<short, 70000>::large(rng);
	Test<int, 1>::misuse();
	Test<int, 2>::misuse();
	Test<int, 5>::misuse();
	Test<double, 16>::misuse();
}
