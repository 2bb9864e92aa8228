// LMS filters against the direct recurrence
#include "h.hh"
namespace DSP { using std::min; using std::sqrt; using std::atan2; using std::sin; using std::cos; }
#include "complex.hh"
#include "lms.hh"
typedef long double L;
typedef std::complex<L> Z;
typedef DSP::Complex<double> C;
static void near(const char *w, L a, L b, L tol) { if (!(std::fabs(a - b) <= tol)) H::fail("%s: %.17Lg instead of %.17Lg", w, a, b); }
// signals of every size: the level scales inputs and desired values, not the coefficients
static double level = 1;
static double pick() { return H::below(4) ? level * H::range(-8, 8) / 4. : 0.; }
template <int S> static void real()
{
	DSP::NLMS<double, S> f;
	const double *c = f;
	for (int i = 0; i < S; ++i) near("initial coefficient", c[i], 0, 0);
	std::vector<double> h(S, 0.);
	for (int r = 0; r < 4 * S + 8; ++r) {
		double x = pick(), d = pick(), mu = H::range(0, 8) / 4.;
		int mode = H::below(3);
		if (H::below(12) == 0) x = 0;
		if (!mode) mu = 1;
		std::vector<L> o(c, c + S);
		h.erase(h.begin());
		h.push_back(x);
		L est = 0, p = 0, big = 0;
		for (int i = 0; i < S; ++i) { est += o[i] * h[i]; p += L(h[i]) * h[i]; big = std::max(big, std::fabs(o[i])); }
		H::kase(p != 0, "NLMS size %d step %d input %g desired %g mu %g", S, r, x, d, mu);
		double e = mode ? f(x, d, mu) : f(x, d);
		L tol = 1e-12L * (1 + big) * (1 + S);
		near("returned error", e, d - est, tol * 10 * level);
		const double *g = f;
		for (int i = 0; i < S; ++i)
			near("coefficient", g[i], p != 0 ? o[i] + mu / p * L(e) * h[i] : o[i], p != 0 ? tol * 100 : 0);
		if (p != 0) {
			L post = d;
			for (int i = 0; i < S; ++i) post -= g[i] * L(h[i]);
			near("a-posteriori error", post, (1 - mu) * e, tol * 1000 * level);
		}
		if (big > 1e3) return;
	}
}
template <int S> static void cplx()
{
	DSP::NCLMS<C, S> f;
	const C *c = f;
	for (int i = 0; i < S; ++i) { near("initial coefficient", c[i].real(), 0, 0); near("initial coefficient", c[i].imag(), 0, 0); }
	std::vector<Z> h(S, Z(0));
	for (int r = 0; r < 4 * S + 8; ++r) {
		C x(pick(), pick()), d(pick(), pick());
		double mu = H::range(0, 8) / 4.;
		int mode = H::below(3);
		if (!mode) mu = 1;
		if (H::below(12) == 0) x = 0;
		std::vector<Z> o;
		L big = 0, p = 0;
		for (int i = 0; i < S; ++i) { o.push_back(Z(c[i].real(), c[i].imag())); big = std::max(big, std::abs(o[i])); }
		h.erase(h.begin());
		h.push_back(Z(x.real(), x.imag()));
		Z est = 0, dd(d.real(), d.imag());
		for (int i = 0; i < S; ++i) { est += o[i] * h[i]; p += std::norm(h[i]); }
		H::kase(p != 0, "NCLMS size %d step %d input (%g,%g) desired (%g,%g) mu %g", S, r, x.real(), x.imag(), d.real(), d.imag(), mu);
		C e = mode ? f(x, d, mu) : f(x, d);
		L tol = 1e-12L * (1 + big) * (1 + S);
		Z err = dd - est, ee(e.real(), e.imag());
		near("returned error (real)", e.real(), err.real(), tol * 10 * level);
		near("returned error (imag)", e.imag(), err.imag(), tol * 10 * level);
		const C *g = f;
		Z post = dd;
		for (int i = 0; i < S; ++i) {
			Z w = p != 0 ? o[i] + mu / p * ee * std::conj(h[i]) : o[i];
			near("coefficient (real)", g[i].real(), w.real(), p != 0 ? tol * 100 : 0);
			near("coefficient (imag)", g[i].imag(), w.imag(), p != 0 ? tol * 100 : 0);
			post -= Z(g[i].real(), g[i].imag()) * h[i];
		}
		if (p != 0) {
			near("a-posteriori error (real)", post.real(), (1 - mu) * ee.real(), tol * 1000 * level);
			near("a-posteriori error (imag)", post.imag(), (1 - mu) * ee.imag(), tol * 1000 * level);
		}
		if (big > 1e3) return;
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 2000 : 150); ++r) {
		level = r % 3 ? 1 : std::ldexp(1., H::range(-120, 40));
		real<1>(); real<2>(); real<3>(); real<4>(); real<7>(); real<16>(); real<33>();
		cplx<1>(); cplx<2>(); cplx<3>(); cplx<4>(); cplx<7>(); cplx<16>(); cplx<33>();
	}
	return H::done();
}
