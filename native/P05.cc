#include "h.hh"
#include "swa.hh"

struct Plus { unsigned operator()(unsigned a, unsigned b) { return a + b; } };
struct Mul { unsigned operator()(unsigned a, unsigned b) { return a * b; } };
struct Xor { unsigned operator()(unsigned a, unsigned b) { return a ^ b; } };
struct Max { unsigned operator()(unsigned a, unsigned b) { return a < b ? b : a; } };

template <typename OP, int NUM> void run(unsigned ident, const char *nm, int len)
{
	struct G { char a[64]; DSP::SWA<unsigned, OP, NUM> s; char c[64]; G(unsigned i) : s(i) {} } g(ident);
	OP op;
	std::vector<unsigned> x(NUM, ident);
	for (int t = 0; t < len; ++t) {
		x.push_back(unsigned(H::u64()) | 1);
		H::kase(t >= NUM, "SWA<%s,%d> call %d inputs ..,%u", nm, NUM, t + 1, x.back());
		unsigned want = ident;
		for (int i = 0; i < NUM; ++i) want = op(want, x[x.size() - NUM + i]);
		unsigned got = g.s(x.back());
		if (got != want) H::fail("returned %u, want %u", got, want);
	}
}
template <int NUM> void all(int len)
{
	run<Plus, NUM>(0, "plus", len); run<Mul, NUM>(1, "mul", len); run<Xor, NUM>(0, "xor", len); run<Max, NUM>(0, "max", len);
}
template <int... I> void seq(std::integer_sequence<int, I...>) { (all<I + 1>(5 * (I + 1) + 10), ...); }

int main(int argc, char **argv)
{
	H::init(argc, argv);
	seq(std::make_integer_sequence<int, 36>());
	all<64>(400); all<100>(500); all<127>(500); all<1000>(3000);
	return H::done();
}
