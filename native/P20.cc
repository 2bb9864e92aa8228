// Powers and decibels against the C library in extended precision
#include "h.hh"
namespace DSP { using std::nearbyint; using std::sqrt; }
#include "exp.hh"
#include "decibel.hh"
typedef long double L;
static void rel(const char *w, L a, L b, L tol) { if (!(std::fabs(a - b) <= tol * std::fabs(b))) H::fail("%s: %.20Lg instead of %.20Lg", w, a, b); }
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int n = -200; n <= 200; ++n)
		for (int k = 0; k < 8; ++k) {
			double x = k ? H::sym() * std::exp(20 * H::sym()) : 1;
			H::kase(n, "ldexp(%.17g, %d)", x, n);
			double r = DSP::ldexp(x, n);
			if (r != std::ldexp(x, n)) H::fail("%.17g instead of %.17g", r, std::ldexp(x, n));
			if (std::abs(n) <= 60) { float f = DSP::ldexp(float(x), n); if (f != std::ldexp(float(x), n)) H::fail("float: %.9g instead of %.9g", f, std::ldexp(float(x), n)); }
		}
	int M = H::thorough ? 1000000 : 60000;
	for (int i = 0; i < M; ++i) {
		double x = i < 121 ? i - 60 : i % 2 ? 60 * H::sym() : 2 * H::sym();
		if (i % 16 == 3) x = H::range(-190, 190) * 0.30102999566398119521 * 0.5;
		x = std::max(-60., std::min(60., x));
		H::kase(x != 0, "exp10(%.17g)", x);
		rel("exp10", DSP::exp10(x), std::pow(L(10), L(x)), 1e-15L + 4 * 0x1p-53L);
		float f = float(x / 2);
		rel("float exp10", DSP::exp10(f), std::pow(L(10), L(f)), 16 * 0x1p-24L);
		rel("idecibel", DSP::idecibel(x), std::pow(L(10), L(x) / 10), 1e-15L + 8 * 0x1p-53L);
		double v = i == 0 ? 1 : i == 1 ? 1e100 : i == 2 ? 1e-100 : i % 4 == 0 ? 1 + 1e-3 * H::sym() : std::pow(10., (i % 4 == 1 ? 12 : 100) * H::sym());
		v = std::max(1e-100, std::min(1e100, v));
		H::kase(v != 1, "decibel(%.17g)", v);
		double d = DSP::decibel(v);
		L w = 10 * std::log10(L(v));
		if (!(std::fabs(d - w) <= 1e-11L)) H::fail("%.17g instead of %.17Lg", d, w);
		if (std::fabs(d) <= 600) rel("idecibel(decibel(v))", DSP::idecibel(d), v, 1e-11L);
		if (std::fabs(d) > 120) continue;
		float df = DSP::decibel(float(v));
		if (!(std::fabs(df - 10 * std::log10(L(float(v)))) <= 0.02L)) H::fail("float: %.9g instead of %.9Lg", df, w);
	}
	if (DSP::decibel(1.0) != 0) H::fail("decibel(1) is %g", DSP::decibel(1.0));
	return H::done();
}
