// FAST: fast Fourier transform against the definition
#include "h.hh"
#include <vector>
#include <complex>
namespace DSP { using std::sqrt; using std::atan2; using std::sin; using std::cos; }
#include "complex.hh"
#include "fft.hh"
typedef long double L;
typedef std::complex<L> CL;
static const L PI = 3.141592653589793238462643383279502884L;
template <typename T, int N, int SIGN>
static void one(L eps, int rounds)
{
	typedef DSP::Complex<T> C;
	static std::vector<CL> w(N);
	for (int n = 0; n < N; ++n) w[n] = CL(std::cos(2 * PI * n / N), SIGN * std::sin(2 * PI * n / N));
	auto *fft = new DSP::FastFourierTransform<N, C, SIGN>;
	for (int r = 0; r < rounds; ++r) {
		// exact size blocks: the sanitizer sees accesses outside
		C *in = new C[N], *out = new C[N];
		std::vector<CL> x(N);
		int kind = r % 3, pos = H::below(N);
		L norm = 0;
		for (int n = 0; n < N; ++n) {
			in[n] = kind == 1 ? C(n == pos, 0) : kind == 2 ? C(0, n == pos || n == 1) : C(H::sym(), H::sym());
			x[n] = CL(in[n].real(), in[n].imag());
			norm += std::abs(x[n]);
		}
		H::kase(N > 1, "N=%d sign=%d digits=%d kind=%d pos=%d", N, SIGN, std::numeric_limits<T>::digits, kind, pos);
		(*fft)(out, in);
		L tol = eps * norm;
		for (int k = 0; k < N; ++k) {
			CL y = 0;
			for (int n = 0; n < N; ++n) y += x[n] * w[(int64_t(n) * k) % N];
			L d = std::abs(y - CL(out[k].real(), out[k].imag()));
			if (!(d <= tol)) { H::fail("bin %d: (%.9Lg, %.9Lg) instead of (%.9Lg, %.9Lg)", k, L(out[k].real()), L(out[k].imag()), y.real(), y.imag()); break; }
		}
		for (int n = 0; n < N; ++n)
			if (L(in[n].real()) != x[n].real() || L(in[n].imag()) != x[n].imag()) { H::fail("input changed"); break; }
		delete[] in; delete[] out;
	}
	delete fft;
}
template <int N>
static void both(int n)
{
	one<double, N, -1>(1e-13L, n);
	one<double, N, 1>(1e-13L, n);
}
template <int... N>
static void list(int n)
{
	(both<N>(n), ...);
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	int n = H::thorough ? 60 : 6;
	list<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 27, 29, 31, 32, 33, 36, 48, 49, 57, 58, 62, 64, 81, 93, 96, 105, 121, 125, 128, 143, 169, 221, 256, 289, 343, 361, 512, 529, 841, 961, 1024>(n);
	one<float, 360, -1>(1e-5L, n);
	one<float, 899, 1>(1e-5L, n);
	return H::done();
}
