// moving averages on integer-valued doubles (exact) against a direct sum of the window
#include "h.hh"
#include <cstring>
#include <new>
namespace DSP { using std::abs; }
#include "sma.hh"
template <typename T> static void check(const char *w, double got, double want, T tol) { if (!(std::abs(got - want) <= tol)) H::fail("%s = %.17g, expected %.17g", w, got, want); }
template <int N> void run(int len, int kind)
{
	alignas(64) unsigned char mem[sizeof(DSP::SMA1<double, double, N>)];
	std::memset(mem, 0x41, sizeof(mem));
	auto &a1 = *new (mem) DSP::SMA1<double, double, N>;
	H::kase(false, "N=%d before the first call", N);
	check("abs_dev", a1.abs_dev(), 0, 0);
	DSP::SMA2<double, double, N> a2; DSP::SMA2<double, double, N, false> b2;
	DSP::SMA3<double, double, N> a3; DSP::SMA3<double, double, N, false> b3;
	DSP::SMA4<double, double, N> a4; DSP::SMA4<double, double, N, false> b4;
	DSP::SMA2<float, float, N, false> c2;
	std::vector<double> x(N, 0.0);
	for (int t = 0; t < len; ++t) {
		double v = kind == 0 ? H::range(-1000, 1000) : kind == 1 ? (t == 0 ? 1 : 0) : kind == 2 ? t % 7 : (H::below(5) ? 0 : H::range(-5, 5));
		x.push_back(v);
		double s = 0;
		for (int i = 0; i < N; ++i) s += x[x.size() - 1 - i];
		H::kase(t > N, "N=%d call %d input %g sum %g", N, t + 1, v, s);
		double m = s / N;
		check("SMA1", a1(v), m, 1e-9); check("SMA2", a2(v), m, 1e-9); check("SMA3", a3(v), m, 1e-9); check("SMA4", a4(v), m, 1e-9);
		check("SMA2 sum", b2(v), s, 1e-9); check("SMA3 sum", b3(v), s, 1e-9); check("SMA4 sum", b4(v), s, 1e-9);
		check("SMA2<float> sum", c2(float(v)), s, 1e-6);
		double d = 0;
		for (int i = 0; i < N; ++i) d += std::abs(x[x.size() - 1 - i] - m);
		check("abs_dev", a1.abs_dev(), d / N, 1e-9 * (1 + d));
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	int r = H::thorough ? 20 : 3;
	for (int k = 0; k < r; ++k)
		for (int kind = 0; kind < 4; ++kind) {
			run<1>(20, kind); run<2>(40, kind); run<3>(50, kind); run<4>(50, kind); run<5>(60, kind); run<7>(80, kind); run<8>(80, kind); run<13>(100, kind); run<31>(150, kind); run<100>(500, kind);
		}
	return H::done();
}
