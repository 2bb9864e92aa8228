// Hermite interpolation against its definition
#include "h.hh"
#include "spline.hh"
typedef long double L;
typedef DSP::CubicHermiteSpline<double, double> S;
static void near(const char *w, L a, L b, L tol) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) H::fail("%s: %.17Lg instead of %.17Lg", w, a, b); }
static L herm(L t, L p0, L m0, L p1, L m1) { return p0 + t * (m0 + t * ((3 * (p1 - p0) - 2 * m0 - m1) + t * (2 * (p0 - p1) + m0 + m1))); }
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 20000 : 2000); ++r) {
		int n = H::below(3) ? H::range(3, 6) : H::range(3, 40);
		double *X = new double[n], *Y = new double[n];
		double x = 5 * H::sym();
		for (int i = 0; i < n; ++i) { X[i] = x; x += 0.05 + (H::coin() ? H::uni() : 3 * H::uni()); Y[i] = H::below(4) ? H::sym() : H::range(-3, 3); }
		auto q = [&](int i) { return (L(Y[i]) - Y[i-1]) / (L(X[i]) - X[i-1]); };
		auto m = [&](int i) { return i == 0 ? q(1) : i == n - 1 ? q(n - 1) : (q(i) + q(i + 1)) / 2; };
		auto um = [&](int i) { return i == 0 ? L(Y[1]) - Y[0] : i == n - 1 ? L(Y[n-1]) - Y[n-2] : (L(Y[i+1]) - Y[i-1]) / 2; };
		auto seg = [&](int s, L xx) { L w = L(X[s+1]) - X[s]; return herm((xx - X[s]) / w, Y[s], w * m(s), Y[s+1], w * m(s + 1)); };
		auto useg = [&](int s, L t) { return herm(t, Y[s], um(s), Y[s+1], um(s + 1)); };
		for (int i = 0; i < 12; ++i) {
			double v = i < n && i < 6 ? X[H::below(n)] : X[0] - 1 + (X[n-1] - X[0] + 2) * H::uni();
			int s = 0;
			while (s < n - 2 && v > X[s+1]) ++s;
			H::kase(true, "grid n=%d x=%.17g in [%g, %g] segment %d", n, v, X[0], X[n-1], s);
			near("value on the grid", S::eval(X, Y, v, n), seg(s, v), 1e-10);
			int k = H::range(-2, n + 1), c = std::min(std::max(k, 0), n - 2);
			double t = H::uni();
			near("segment on the grid", S::eval(X, Y, t, k, n), herm(t, Y[c], (X[c+1] - X[c]) * m(c), Y[c+1], (X[c+1] - X[c]) * m(c + 1)), 1e-10);
			near("uniform segment", S::eval(Y, t, k, n), useg(c, t), 1e-11);
			double x0 = i & 1 ? 0 : 3 * H::sym(), dx = i & 1 ? 1 : 0.1 + H::uni();
			if (i % 4 == 2) dx = -dx;
			double tx = H::coin() ? H::range(-1, n) : -1.5 + (n + 2) * H::uni();
			double u = x0 + tx * dx;
			L te = (L(u) - x0) / dx;
			int us = te < 0 ? 0 : te >= n - 1 ? n - 2 : int(te);
			H::kase(true, "uniform n=%d x=%.17g x0=%.17g dx=%.17g", n, u, x0, dx);
			near("uniform value", i & 1 ? S::eval(Y, u, n) : S::eval(Y, u, n, x0, dx), useg(us, te - us), 1e-9);
		}
		delete[] X; delete[] Y;
	}
	return H::done();
}
