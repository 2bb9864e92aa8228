// averages and DC blocker against their recurrences and measured responses
#include "h.hh"
namespace DSP { using std::sqrt; using std::nearbyint; using std::cos; using std::sin; }
#include "ema.hh"
#include "blockdc.hh"
typedef long double L;
static void near(const char *w, double a, L b, double tol) { if (!(std::fabs(a - b) <= tol)) H::fail("%s: %.17g instead of %.17Lg", w, a, b); }
static const L pi = acosl(-1);
static L half(int n, int N) { L x = cosl(2 * pi * n / N), k = 1 - x; return -k + sqrtl(k * k + 2 * k); }
template <int O> static void cascade()
{
	DSP::EMACascade<double, double, O> c;
	H::kase(true, "cascade order %d fresh", O);
	for (int i = 0; i < 5; ++i) { double x = H::range(-9, 9); near("fresh cascade passes through", c(x), x, 1e-12); }
	for (int r = 0; r < (H::thorough ? 500 : 60); ++r) {
		int N = H::range(100, 4000000), n = H::range(1, std::max(1, N / 12));
		L f = O == 1 ? 1 : sqrtl(powl(2, 1.L / O) - 1), v = n / f;
		if (std::fabs(v - floorl(v) - 0.5L) < 1e-9) continue;
		int m = int(nearbyintl(v));
		DSP::EMACascade<double, double, O> d;
		H::kase(O > 1, "cascade order %d cutoff(%d, %d)", O, n, N);
		if (m > N) continue;
		d.cutoff(n, N);
		L al = half(m, N), s[O];
		for (int i = 0; i < O; ++i) s[i] = 0;
		for (int i = 0; i < 30; ++i) {
			double x = H::sym();
			L y = x;
			for (int j = 0; j < O; ++j) y = s[j] = s[j] + al * (y - s[j]);
			near("cascade output", d(x), y, 1e-9);
		}
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 20000 : 2000); ++r) {
		double p = H::sym(), a = H::uni();
		DSP::EMA<double, double> e(p, a), f, g(p, a);
		L s = p;
		int k = H::range(1, 1000), N = H::range(3, 100000), n = H::range(1, (N - 1) / 2);
		H::kase(true, "prev=%.17g alpha=%.17g samples=%d cutoff=%d/%d", p, a, k, n, N);
		for (int i = 0; i < 10; ++i) { double x = H::sym(); s += a * (x - s); near("ema", e(x), s, 1e-13); near("fresh ema", f(x), x, 0); }
		e.samples(k);
		for (int i = 0; i < 10; ++i) { double x = H::sym(); s += (x - s) / k; near("ema after samples", e(x), s, 1e-13); }
		e.cutoff(n, N); g.cutoff(n, N);
		L al = half(n, N);
		double q0 = DSP::EMA<double, double>(g)(0.), q1 = DSP::EMA<double, double>(g)(1.), A = q1 - q0;
		if (!(A > 0 && A < 1)) H::fail("alpha %.17g not in (0, 1)", A);
		L w = 2 * pi * n / N, P = L(A) * A / (1 - 2 * (1 - L(A)) * cosl(w) + (1 - L(A)) * (1 - L(A)));
		near("power at cutoff", P, 0.5L, 1e-6);
		for (int i = 0; i < 10; ++i) { double x = H::sym(); s += al * (x - s); near("ema after cutoff", e(x), s, 1e-9); }
		DSP::BlockDC<double, double> b;
		L x1 = 0, y1 = 0, ca = 0, cb = 0.5L;
		for (int i = 0; i < 20; ++i) {
			if (i == (k & 1 ? 0 : 5)) { b.samples(k); ca = (k - 1.L) / k; cb = (1 + ca) / 2; }
			double x = H::sym(); L y = cb * (x - x1) + ca * y1; x1 = x; y1 = y;
			near("dc blocker", b(x), y, 1e-13);
		}
		if (k < 60) {
			double v = 0, u = 0;
			DSP::BlockDC<double, double> dc, ny;
			dc.samples(k); ny.samples(k);
			for (int i = 0; i < 3000; ++i) { v = dc(1.); u = ny(i & 1 ? -1. : 1.); }
			near("gain at DC", v, 0, 1e-9); near("gain at Nyquist", u, -1, 1e-9);
		}
	}
	cascade<1>(); cascade<2>(); cascade<3>(); cascade<4>(); cascade<5>(); cascade<6>(); cascade<7>(); cascade<8>(); cascade<9>(); cascade<10>();
	cascade<11>(); cascade<12>(); cascade<13>(); cascade<14>(); cascade<15>(); cascade<16>();
	return H::done();
}
