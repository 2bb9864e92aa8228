#include "h.hh"
#include "stack.hh"

template <int SIZE> void run(int ops)
{
	DSP::Stack<int, SIZE> q;
	std::vector<int> m;
	std::string log;
	int bias = H::below(3);
	for (int i = 0, v = 1; i < ops; ++i, ++v) {
		int k = H::below(100), op = k < 2 ? 2 : k < (bias == 0 ? 65 : bias == 1 ? 40 : 50) ? 0 : 1;
		if (op == 0 && int(m.size()) == SIZE) op = 1;
		if (op == 1 && m.empty()) op = 0;
		log += op == 0 ? H::str("push(%d) ", v) : op == 1 ? "pop() " : "clear() ";
		if (log.size() > 600) log = "..." + log.substr(log.size() - 500);
		H::kase(m.size() > 0, "Stack<int,%d>: %s", SIZE, log.c_str());
		if (op == 0) { q.push(v); m.push_back(v); }
		if (op == 1) { q.pop(); m.pop_back(); }
		if (op == 2) { q.clear(); m.clear(); }
		if (q.size() != int(m.size())) H::fail("size() is %d, ideal %d", q.size(), int(m.size()));
		if (q.empty() != m.empty()) H::fail("empty() is %d, ideal %d", q.empty(), m.empty());
		if (q.full() != (int(m.size()) == SIZE)) H::fail("full() is %d", q.full());
		if (q.max_size() != SIZE) H::fail("max_size() is %d", q.max_size());
		if (!m.empty()) {
			if (q.top() != m.back()) H::fail("top() is %d, ideal %d", q.top(), m.back());
			if (q.first() != m.front()) H::fail("first() is %d, ideal %d", q.first(), m.front());
		}
	}
	H::kase(true, "Stack<int,%d>: misuse", SIZE);
	while (!q.empty()) q.pop();
	if (!H::aborts([&]{ q.pop(); })) H::fail("pop on empty not caught");
	if (!H::aborts([&]{ volatile int x = q.top(); (void)x; })) H::fail("top on empty not caught");
	if (!H::aborts([&]{ volatile int x = q.first(); (void)x; })) H::fail("first on empty not caught");
	for (int i = 0; i < SIZE; ++i) q.push(i);
	if (!H::aborts([&]{ q.push(1); })) H::fail("push on full not caught");
	for (int i = SIZE; i--;) {
		if (q.top() != i) H::fail("drained %d, ideal %d", q.top(), i);
		q.pop();
	}
}

int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 20 : 4); ++r) {
		run<1>(200); run<2>(500); run<3>(800); run<4>(800); run<5>(1000); run<16>(2000); run<33>(2000); run<100>(3000);
	}
	run<1000>(20000);
	return H::done();
}
