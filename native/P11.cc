// least squares fits against the normal equations and long double moments
#include "h.hh"
#include "regression.hh"
typedef long double L;
typedef DSP::SimpleLinearRegression<double> Fit;
static void near(const char *w, L a, L b, L tol) { if (!(std::fabs(a - b) <= tol)) H::fail("%s: %.17Lg instead of %.17Lg", w, a, b); }
static void check(Fit &f, const std::vector<double> &x, const std::vector<double> &y)
{
	int n = x.size();
	L sx = 0, sy = 0, sc = 0;
	for (int i = 0; i < n; ++i) { sx += x[i]; sy += y[i]; sc += std::fabs(y[i]); }
	L ax = sx / n, ay = sy / n, v = 0, c = 0, r0 = 0, r1 = 0, mx = 0;
	for (int i = 0; i < n; ++i) { v += (x[i] - ax) * (x[i] - ax); c += (x[i] - ax) * (y[i] - ay); mx = std::max(mx, L(std::fabs(x[i]))); }
	L sl = c / v, yi = ay - sl * ax, tol = 1e-10L;
	near("slope", f.slope(), sl, tol * (1 + std::fabs(sl)));
	near("yint", f.yint(), yi, tol * (1 + std::fabs(yi) + std::fabs(sl) * mx));
	for (int i = 0; i < n; ++i) { L r = y[i] - (L(f.yint()) + L(f.slope()) * x[i]); r0 += r; r1 += r * x[i]; }
	near("residual sum", r0, 0, tol * (1 + sc + n * std::fabs(sl) * mx));
	near("residuals times abscissae", r1, 0, tol * (1 + sc + n * std::fabs(sl) * mx) * (1 + mx));
	double t = H::sym() * 10;
	near("evaluation", f(t), L(f.yint()) + L(f.slope()) * t, 1e-12L * (1 + std::fabs(yi) + std::fabs(sl) * 10));
	if (std::fabs(sl) > 1e-3L) near("x-intercept", f.xint(), -yi / sl, 1e-7L * (1 + std::fabs(yi / sl)));
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 100000 : 10000); ++r) {
		int n = H::below(4) ? H::range(2, 12) : H::range(2, 200);
		std::vector<double> x(n), y(n);
		for (int i = 0; i < n; ++i) { x[i] = H::coin() ? H::range(-6, 6) : H::sym() * 6; y[i] = H::coin() ? H::range(-9, 9) : H::sym() * 9; }
		if (x[0] == x[1]) x[1] += 2;
		H::kase(n > 2, "x=%s y=%s", H::list(x.data(), n, 8).c_str(), H::list(y.data(), n, 8).c_str());
		Fit f(x.data(), y.data(), n);
		check(f, x, y);
		double x0 = H::below(3) ? H::sym() * 5 : 0, dx = H::below(3) ? (H::coin() ? 1 : -1) * (0.1 + H::uni() * 2) : 1;
		for (int i = 0; i < n; ++i) x[i] = x0 + i * dx;
		H::kase(n > 2, "grid x0=%.17g dx=%.17g y=%s", x0, dx, H::list(y.data(), n, 8).c_str());
		Fit g(y.data(), n, x0, dx);
		check(g, x, y);
		for (int i = 0; i < n; ++i) x[i] = i;
		H::kase(n > 2, "default grid y=%s", H::list(y.data(), n, 8).c_str());
		Fit h(y.data(), n);
		check(h, x, y);
	}
	return H::done();
}
