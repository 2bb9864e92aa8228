// coefficient arrays: values, products, range, pointer, normalisation
#include "h.hh"
namespace DSP { using std::abs; }
#include "coeffs.hh"
static double tab[2][64];
struct F { int k; long calls = 0; int bad = 0; int T; double operator()(int n, int N) { ++calls; if (N != T || n < 0 || n >= N) { bad = 1; return 0; } return tab[k][n]; } };
template <int T, typename C> static void values(C &c, const std::vector<double> &w, double tol)
{
	const double *p = c;
	for (int i = 0; i < T; ++i) {
		if (!(std::fabs(c(i) - w[i]) <= tol * std::fabs(w[i]))) H::fail("tap %d is %.17g instead of %.17g", i, c(i), w[i]);
		if (p[i] != c(i)) H::fail("pointer shows %.17g for tap %d", p[i], i);
	}
	for (int i : { -1, -2, -1000000, T, T + 1, 1000000 }) if (c(i) != 0) H::fail("tap %d outside is %.17g", i, c(i));
}
template <int T> static void run()
{
	for (int r = 0; r < (H::thorough ? 2000 : 200); ++r) {
		double sg = H::coin() ? 1 : -1, off = H::below(3) ? 0.3 : 0;
		for (int k = 0; k < 2; ++k) for (int i = 0; i < T; ++i) tab[k][i] = H::sym() + off;
		if (sg < 0) for (int i = 0; i < T; ++i) tab[0][i] = -tab[0][i];
		F f{ 0 }, g{ 1 };
		f.T = g.T = T;
		std::vector<double> a(T), b(T);
		long double sa = 0, sb = 0;
		for (int i = 0; i < T; ++i) { a[i] = tab[0][i]; b[i] = tab[0][i] * tab[1][i]; sa += a[i]; sb += b[i]; }
		H::kase(sa < 0, "TAPS=%d func=%s", T, H::list(tab[0], T, 8).c_str());
		DSP::Coeffs<T, double> ca(&f), cb(&f, &g);
		if (f.bad || g.bad) H::fail("function called with other arguments");
		values<T>(ca, a, 0); values<T>(cb, b, 0);
		if (std::fabs(sa) > 1e-3) {
			double d = H::below(3) ? (H::coin() ? 1 : -1) * (0.2 + 3 * H::uni()) : 1;
			std::vector<double> n(T), n1(T);
			for (int i = 0; i < T; ++i) { n[i] = a[i] / (d * std::fabs(sa)); n1[i] = a[i] / std::fabs(sa); }
			DSP::Coeffs<T, double, true> cn(&f);
			values<T>(cn, n1, 1e-9);
			DSP::Coeffs<T, double> c1(ca);
			c1.normalize(); values<T>(c1, n1, 1e-9);
			ca.normalize(d); values<T>(ca, n, 1e-9);
			long double s = 0;
			for (int i = 0; i < T; ++i) s += ca(i);
			if (!(std::fabs(s - (sa > 0 ? 1 : -1) / (long double)d) <= 1e-9)) H::fail("taps sum to %.17Lg, divisor %.17g", s, d);
		}
		if (std::fabs(sb) > 1e-3) {
			std::vector<double> n(T);
			for (int i = 0; i < T; ++i) n[i] = b[i] / std::fabs(sb);
			DSP::Coeffs<T, double, true> cn(&f, &g);
			values<T>(cn, n, 1e-9);
		}
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	run<1>(); run<2>(); run<3>(); run<5>(); run<16>(); run<33>();
	return H::done();
}
