// Natural cubic spline against a direct solution of its defining equations
#include "h.hh"
#include "spline.hh"
typedef long double L;
static void near(const char *w, L a, L b, L tol) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) H::fail("%s: %.17Lg instead of %.17Lg", w, a, b); }
template <int K>
static void go()
{
	typedef DSP::UniformNaturalCubicSpline<K, double, double> S;
	int n = H::thorough ? 400 : 40;
	for (int r = 0; r < n; ++r) {
		int stride = r % 3 == 0 ? 1 : H::range(1, 4);
		std::vector<double> Y((K - 1) * stride + 1);
		for (auto &y : Y) y = H::below(4) ? H::sym() : H::range(-3, 3);
		double x0 = r % 3 == 0 ? 0 : 3 * H::sym(), dx = r % 3 == 0 ? 1 : 0.1 + H::uni();
		if (r % 3 && r % 4 == 1) dx = -dx;
		H::kase(true, "knots=%d stride=%d x0=%.17g dx=%.17g", K, stride, x0, dx);
		S *s = r % 3 == 0 && stride == 1 ? new S(Y.data()) : new S(Y.data(), x0, dx, stride);
		// halved second derivatives by relaxation of C[i-1] + 4 C[i] + C[i+1] = 3 (second difference)
		std::vector<L> C(K, 0), y(K);
		for (int i = 0; i < K; ++i) y[i] = Y[i * stride];
		for (int k = 0; k < 80; ++k)
			for (int i = 1; i < K - 1; ++i)
				C[i] = (3 * (y[i+1] - 2 * y[i] + y[i-1]) - C[i-1] - C[i+1]) / 4;
		auto ref = [&](L tx) {
			int k = tx < 0 ? 0 : tx >= K - 1 ? K - 2 : int(tx);
			L t = tx - k, d = (C[k+1] - C[k]) / 3, b = y[k+1] - y[k] - (2 * C[k] + C[k+1]) / 3;
			return y[k] + t * (b + t * (C[k] + t * d));
		};
		for (int i = 0; i < 24; ++i) {
			double tx = i < 8 ? H::range(-1, K) : -1.5 + (K + 2) * H::uni();
			double x = x0 + tx * dx;
			L te = (L(x) - x0) / dx;
			H::kase(true, "knots=%d stride=%d x0=%.17g dx=%.17g x=%.17g", K, stride, x0, dx, x);
			near("value", (*s)(x), ref(te), 1e-9);
		}
		delete s;
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	go<3>(); go<4>(); go<5>(); go<6>(); go<7>(); go<10>(); go<17>(); go<33>();
	return H::done();
}
