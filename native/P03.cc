#include "h.hh"
#include "delay.hh"

template <typename T, int NUM> void run(int len, bool def)
{
	T init = def ? T(0) : T(H::range(-50, 50));
	DSP::Delay<T, NUM> d1(init), d2;
	std::vector<T> x;
	for (int t = 0; t < len; ++t) {
		x.push_back(T(t * 7 % 1000 + 1));
		H::kase(t >= NUM, "Delay<%d>(init=%g) call %d with input %g", NUM, double(init), t + 1, double(x[t]));
		T y = def ? d2(x[t]) : d1(x[t]);
		T want = t < NUM ? init : x[t - NUM];
		if (y != want) H::fail("returned %g, want %g", double(y), double(want));
	}
}

int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < 2; ++r) {
		run<int, 1>(50, r); run<int, 2>(50, r); run<int, 3>(60, r); run<float, 4>(60, r); run<double, 5>(80, r);
		run<int, 7>(100, r); run<int, 8>(100, r); run<int, 16>(200, r); run<float, 31>(400, r); run<int, 100>(1000, r); run<int, 1000>(5000, r); run<short, 33>(1000, r);
	}
	return H::done();
}
