#include "h.hh"
#include <deque>
#include "deque.hh"

template <int SIZE> void run(int ops)
{
	DSP::Deque<int, SIZE> q;
	std::deque<int> m;	// back of DSP::Deque is m.back()
	std::string log;
	int bias = H::below(3);
	for (int i = 0, v = 1; i < ops; ++i, ++v) {
		int k = H::below(100), op;
		if (k < 3) op = 4;
		else if (bias == 0) op = k < 63 ? H::below(2) : 2 + H::below(2);
		else if (bias == 1) op = k < 40 ? H::below(2) : 2 + H::below(2);
		else op = H::below(4);
		if (op < 2 && int(m.size()) == SIZE) op = 2 + H::below(2);
		if ((op == 2 || op == 3) && m.empty()) op = H::below(2);
		static const char *nm[] = { "push_back", "push_front", "pop_back", "pop_front", "clear" };
		log += H::str("%s%s ", nm[op], op < 2 ? H::str("(%d)", v).c_str() : "()");
		if (log.size() > 600) log = "..." + log.substr(log.size() - 500);
		H::kase(m.size() > 0, "Deque<int,%d>: %s", SIZE, log.c_str());
		if (op == 0) { q.push_back(v); m.push_back(v); }
		if (op == 1) { q.push_front(v); m.push_front(v); }
		if (op == 2) { q.pop_back(); m.pop_back(); }
		if (op == 3) { q.pop_front(); m.pop_front(); }
		if (op == 4) { q.clear(); m.clear(); }
		if (q.size() != int(m.size())) H::fail("size() is %d, ideal %d", q.size(), int(m.size()));
		if (q.empty() != m.empty()) H::fail("empty() is %d, ideal %d", q.empty(), m.empty());
		if (q.full() != (int(m.size()) == SIZE)) H::fail("full() is %d", q.full());
		if (q.max_size() != SIZE) H::fail("max_size() is %d", q.max_size());
		if (!m.empty()) {
			if (q.back() != m.back()) H::fail("back() is %d, ideal %d", q.back(), m.back());
			if (q.front() != m.front()) H::fail("front() is %d, ideal %d", q.front(), m.front());
		}
	}
	// misuse is stopped
	H::kase(true, "Deque<int,%d>: misuse", SIZE);
	while (!q.empty()) q.pop_back();
	if (!H::aborts([&]{ q.pop_back(); })) H::fail("pop_back on empty not caught");
	if (!H::aborts([&]{ q.pop_front(); })) H::fail("pop_front on empty not caught");
	if (!H::aborts([&]{ volatile int x = q.back(); (void)x; })) H::fail("back on empty not caught");
	if (!H::aborts([&]{ volatile int x = q.front(); (void)x; })) H::fail("front on empty not caught");
	for (int i = 0; i < SIZE; ++i) q.push_front(i);
	if (!H::aborts([&]{ q.push_back(1); })) H::fail("push_back on full not caught");
	if (!H::aborts([&]{ q.push_front(1); })) H::fail("push_front on full not caught");
	// drain completely and compare
	for (int i = 0; i < SIZE; ++i) {
		if (q.back() != i) H::fail("drained %d, ideal %d", q.back(), i);
		q.pop_back();
	}
}

int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 20 : 4); ++r) {
		run<1>(200); run<2>(500); run<3>(800); run<4>(800); run<5>(1000); run<7>(1000); run<16>(2000); run<33>(2000); run<100>(3000);
	}
	run<1000>(20000);
	return H::done();
}
