// biquad sections against the textbook difference equation
#include "h.hh"
namespace DSP { using std::sqrt; using std::cos; using std::sin; using std::abs; using std::exp; using std::log; using std::nearbyint; using std::floor; using std::rint; }
#include "biquad.hh"
typedef long double L;
static const L pi = acosl(-1);
struct Ref {
	L b0 = 1, b1 = 0, b2 = 0, a1 = 0, a2 = 0, x1 = 0, x2 = 0, y1 = 0, y2 = 0;
	void set(int kind, int n, int N, L Q)
	{
		L w = 2 * pi * n / N, c = cosl(w), al = sinl(w) / (2 * Q), a0 = 1 + al;
		a1 = -2 * c / a0; a2 = (1 - al) / a0;
		switch (kind) {
		case 0: b0 = b2 = (1 - c) / 2 / a0; b1 = (1 - c) / a0; break;
		case 1: b0 = b2 = (1 + c) / 2 / a0; b1 = -(1 + c) / a0; break;
		case 2: b0 = b2 = 1 / a0; b1 = -2 * c / a0; break;
		case 3: b0 = al / a0; b1 = 0; b2 = -al / a0; break;
		default: b0 = (1 - al) / a0; b1 = -2 * c / a0; b2 = 1;
		}
	}
	L operator()(L x) { L y = b0 * x + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2; x2 = x1; x1 = x; y2 = y1; y1 = y; return y; }
};
static void near(const char *w, L a, L b, L tol) { if (!(std::fabs(a - b) <= tol)) H::fail("%s: %.17Lg instead of %.17Lg", w, a, b); }
template <int NUM> static void cascade()
{
	DSP::BiquadCascade<double, double, NUM> f, id;
	for (int i = 0; i < 4; ++i) { double x = H::sym(); near("fresh cascade", id(x), x, 1e-15); }
	int N = H::range(20, 1000), n = H::range(std::max(1, N / 50), (N - 1) / 2 - N / 50);
	bool hi = H::coin();
	Ref r[NUM];
	for (int again = 0; again < 2; ++again) {
		H::kase(true, "cascade of %d %s(%d, %d)", NUM, hi ? "highpass" : "lowpass", n, N);
		if (hi) f.highpass(n, N); else f.lowpass(n, N);
		for (int i = 0; i < NUM; ++i) r[i].set(hi, n, N, 1 / (2 * cosl(pi * (2 * i + 1) / (4 * NUM))));
		for (int i = 0; i < 60; ++i) {
			double x = i ? H::sym() : 1;
			L y = x;
			for (int j = 0; j < NUM; ++j) y = r[j](y);
			near("cascade output", f(x), y, 1e-6);
		}
		hi = !hi;
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	static const char *K[] = { "lowpass", "highpass", "notch", "bandpass", "allpass" };
	for (int t = 0; t < (H::thorough ? 40000 : 3000); ++t) {
		DSP::Biquad<double, double> f;
		Ref r;
		H::kase(false, "fresh section");
		for (int i = 0; i < 3; ++i) { double x = H::sym(); near("fresh section", f(x), x, 0); r(x); }
		for (int rep = 0; rep < 2; ++rep) {
			int N = H::range(20, 2000), n = H::range(std::max(1, N / 50), (N - 1) / 2 - N / 50), k = H::below(5);
			double p = k < 2 ? 0.3 + 5 * H::uni() : 30 * H::uni() - 10;
			bool dflt = k < 2 && H::below(3) == 0;
			if (dflt) p = sqrt(0.5);
			H::kase(true, "%s(%d, %d, %.17g)", K[k], n, N, p);
			if (dflt) { if (k) f.highpass(n, N); else f.lowpass(n, N); }
			else if (k == 0) f.lowpass(n, N, p);
			else if (k == 1) f.highpass(n, N, p);
			else if (k == 2) f.notch(n, N, p);
			else if (k == 3) f.bandpass(n, N, p);
			else f.allpass(n, N, p);
			r.set(k, n, N, k < 2 ? L(p) : powl(10, L(p) / 10));
			for (int i = 0; i < 40; ++i) { double x = H::sym(); near("section output", f(x), r(x), 2e-6); }
		}
	}
	for (int t = 0; t < (H::thorough ? 4000 : 400); ++t) { cascade<1>(); cascade<2>(); cascade<3>(); cascade<5>(); }
	return H::done();
}
