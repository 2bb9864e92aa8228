// Hilbert transformer and quarter-rate down-converter against direct convolution
#include "h.hh"
#include <vector>
#include <complex>
namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; using std::cos; using std::atan2; }
#include "complex.hh"
#include "hilbert.hh"
#include "cdc.hh"
typedef long double L;
typedef std::complex<L> CL;
static const L PI = 3.141592653589793238462643383279502884L;
static L i0(L x) { L s = 0, t = 1; for (int m = 1; m < 300; ++m) { s += t * t; t *= x / (2 * m); } return s; }
static L kaiser(L a, int n, int N) { L z = 2 * L(n) / (N - 1) - 1; return i0(PI * a * std::sqrt(std::max(L(0), 1 - z * z))) / i0(PI * a); }
template <typename T, int TAPS>
static void one(L tol, int rounds)
{
	for (int r = 0; r < rounds; ++r) {
		T a = r % 3 ? T(0.1 + 3 * H::uni()) : T(2);
		DSP::Hilbert<DSP::Complex<T>, TAPS> h0(a), hd;
		DSP::CDC<DSP::Complex<T>, TAPS> c0(a), cd;
		auto &hil = r % 3 ? h0 : hd;
		auto &cdc = r % 3 ? c0 : cd;
		std::vector<L> hh(TAPS), lp(TAPS);
		const int c = (TAPS - 1) / 2;
		for (int n = 0; n < TAPS; ++n) {
			int k = n - c;
			L w = kaiser(a, n, TAPS);
			hh[n] = k & 1 ? w * 2 / (PI * k) : 0;
			lp[n] = !k ? w / 2 : k & 1 ? w * std::sin(PI * k / 2) / (PI * k) : 0;
		}
		const int len = 3 * TAPS + 8;
		std::vector<L> x(2 * len);
		int kind = r % 4;
		for (auto &v : x) v = kind == 3 ? T(H::below(8) == 0) : T(H::sym());
		if (kind == 2) for (int i = 0; i < 2 * len; ++i) x[i] = T(i == 1);
		auto at = [&](int i) { return i < 0 ? L(0) : x[i]; };
		for (int t = 0; t < len; ++t) {
			H::kase(t >= TAPS, "Hilbert TAPS=%d a=%.6g digits=%d call %d", TAPS, double(a), std::numeric_limits<T>::digits, t);
			auto v = hil(T(x[t]));
			// the newest input is not yet part of the output
			L re = kaiser(a, c, TAPS) * at(t - 1 - c), im = 0;
			for (int n = 0; n < TAPS; ++n) im += hh[n] * at(t - 1 - n);
			if (!(std::fabs(v.real() - re) <= tol && std::fabs(v.imag() - im) <= tol))
				H::fail("(%.9Lg, %.9Lg) instead of (%.9Lg, %.9Lg)", L(v.real()), L(v.imag()), re, im);
		}
		for (int t = 0; t < len; ++t) {
			H::kase(t >= TAPS, "CDC TAPS=%d a=%.6g digits=%d call %d", TAPS, double(a), std::numeric_limits<T>::digits, t);
			auto v = cdc(T(x[2 * t]), T(x[2 * t + 1]));
			static const CL ph[4] = { CL(1, 0), CL(0, -1), CL(-1, 0), CL(0, 1) };
			// times i
			CL z = 0;
			for (int n = 0; n < TAPS; ++n) {
				int i = 2 * t + 1 - n;
				if (i >= 0) z += lp[n] * x[i] * ph[i & 3];
			}
			z *= CL(0, 1);
			if (!(std::fabs(v.real() - z.real()) <= tol && std::fabs(v.imag() - z.imag()) <= tol))
				H::fail("(%.9Lg, %.9Lg) instead of (%.9Lg, %.9Lg)", L(v.real()), L(v.imag()), z.real(), z.imag());
		}
	}
}
template <typename T>
static void all(L tol, int n)
{
	one<T, 5>(tol, n);
	one<T, 9>(tol, n);
	one<T, 13>(tol, n);
	one<T, 17>(tol, n);
	one<T, 33>(tol, n);
	one<T, 65>(tol, n / 2);
	one<T, 129>(tol, n / 4);
	one<T, 257>(tol, n / 8);
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	int n = H::thorough ? 200 : 24;
	all<double>(1e-12L, n);
	all<float>(3e-5L, n);
	return H::done();
}
