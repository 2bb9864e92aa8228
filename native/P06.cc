#include "h.hh"
#include "movext.hh"

template <typename T, int NUM> void run(int len, int kind, const char *nm)
{
	DSP::MovMin<T, NUM> mn;
	DSP::MovMax<T, NUM> mx;
	std::vector<T> x;
	typedef std::numeric_limits<T> L;
	double walk = 0;
	for (int t = 0; t < len; ++t) {
		T v;
		switch (kind) {
		case 0: v = T(H::range(-3, 3)); break;
		case 1: v = T(H::sym() * 100); break;
		case 2: v = T(t % 50); break;
		case 3: v = T(-(t % 50)); break;
		case 4: { T e[] = { L::max(), L::lowest(), L::min(), T(0), T(-1), T(1) }; v = e[H::below(6)]; break; }
		case 5: v = T(walk += H::range(-2, 2)); break;
		case 6: v = T(-1) - T(H::below(20)); break;
		default: v = L::lowest() + T(H::below(2)); break;
		}
		x.push_back(v);
		int from = std::max(0, int(x.size()) - NUM);
		H::kase(t >= NUM, "Mov<%s,%d> kind %d call %d, window %s", nm, NUM, kind, t + 1, H::list(&x[from], int(x.size()) - from, 40).c_str());
		T a = *std::min_element(x.begin() + from, x.end()), b = *std::max_element(x.begin() + from, x.end());
		T p = mn(v), q = mx(v);
		if (p != a) H::fail("MovMin returned %.17g, want %.17g", double(p), double(a));
		if (q != b) H::fail("MovMax returned %.17g, want %.17g", double(q), double(b));
	}
}
template <int NUM> void all()
{
	for (int k = 0; k < 8; ++k) {
		int len = (6 * NUM + 60) * (H::thorough ? 8 : 1);
		run<int, NUM>(len, k, "int"); run<float, NUM>(len, k, "float"); run<double, NUM>(len, k, "double"); run<signed char, NUM>(len, k == 1 ? 0 : k, "signed char");
	}
}

int main(int argc, char **argv)
{
	H::init(argc, argv);
	all<1>(); all<2>(); all<3>(); all<4>(); all<5>(); all<7>(); all<8>(); all<16>(); all<31>(); all<100>();
	return H::done();
}
