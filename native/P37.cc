// AM demodulator and sine normalisers against their recurrences
#include "h.hh"
namespace DSP { using std::sqrt; using std::atan2; using std::cos; using std::sin; using std::min; using std::max; using std::nearbyint; }
#include "complex.hh"
#include "utils.hh"
#include "amd.hh"
#include "normalize.hh"
typedef DSP::Complex<double> C;
static void near(const char *w, double a, double b, double tol) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) H::fail("%s: %.17g instead of %.17g", w, a, b); }
struct Sine {
	long double x1 = 0, y1 = 0, a = 0, b = 0.5, p = 0.5, al = 1;
	void samples(int s) { a = (s - 1.L) / s; b = (1 + a) / 2; al = 1.L / s; }
	double operator()(double x) { long double y = b * (x - x1) + a * y1; x1 = x; y1 = y; p = (1 - al) * p + al * y * y; return y / sqrtl(2 * p); }
};
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 20000 : 2000); ++r) {
		DSP::AMD1<C> d;
		double avg = 0, att = 0, dec = 0, lo = 0.001, hi = 1, idx = 1;
		if (r % 5) {
			att = H::uni(); dec = H::uni();
			if (H::coin()) { lo = 0.001 + H::uni() * 0.3; hi = lo + H::uni() * 2; d.agc(att, dec, lo, hi); } else d.agc(att, dec);
		}
		if (r % 3) { idx = 0.1 + H::uni() * 2; d.index(idx); }
		for (int i = 0; i < 30; ++i) {
			double re = H::sym() * 2, im = H::sym() * 2, amp = std::hypot(re, im);
			if (H::below(6) == 0) { re *= 0.001; im *= 0.001; amp = std::hypot(re, im); }
			H::kase(amp != avg, "amd attack=%.17g decay=%.17g low=%.17g high=%.17g index=%.17g level=%.17g amp=%.17g", att, dec, lo, hi, idx, avg, amp);
			double f = amp < avg ? dec : att;
			avg = avg + f * (amp - avg);
			avg = std::min(std::max(avg, lo), hi);
			near("amd", d(C(re, im)), (amp / avg * (1 + idx) - 1) / idx, 1e-9);
		}
		DSP::NormalizeSine<double> n; DSP::NormalizeIQ<C> q;
		Sine sn, si, sq;
		int k = H::range(2, 300);
		if (r % 4) { n.samples(k); q.samples(k); sn.samples(k); si.samples(k); sq.samples(k); }
		for (int i = 0; i < 40; ++i) {
			double x = H::sym() + 0.2, y = H::sym() * 3 - 0.4;
			H::kase(true, "normalise samples=%d call %d", r % 4 ? k : 0, i + 1);
			near("normalise sine", n(x), sn(x), 1e-6);
			C z = q(C(x, y));
			near("normalise I", z.real(), si(x), 1e-6); near("normalise Q", z.imag(), sq(y), 1e-6);
		}
	}
	return H::done();
}
