// half-complex transform of real input against the definition
#include "h.hh"
#include <vector>
#include <complex>
namespace DSP { using std::sqrt; using std::atan2; using std::sin; using std::cos; }
#include "complex.hh"
#include "fft.hh"
typedef long double L;
typedef std::complex<L> CL;
static const L PI = 3.141592653589793238462643383279502884L;
template <typename T, int B>
static void one(L eps, int rounds)
{
	typedef DSP::Complex<T> C;
	auto *trans = new DSP::RealToHalfComplexTransform<B, C>;
	for (int r = 0; r < rounds; ++r) {
		T *in = reinterpret_cast<T *>(new C[B / 2]);
		C *out = new C[B / 2 + 1];
		std::vector<L> x(B);
		int kind = r % 3, pos = H::below(B);
		L norm = 0;
		for (int n = 0; n < B; ++n) {
			in[n] = kind == 1 ? n == pos : kind == 2 ? std::cos(2 * PI * ((int64_t(n) * pos) % B) / B) : H::sym();
			x[n] = in[n];
			norm += std::abs(x[n]);
		}
		H::kase(B > 2, "BINS=%d digits=%d kind=%d pos=%d", B, std::numeric_limits<T>::digits, kind, pos);
		(*trans)(out, in);
		L tol = eps * norm;
		for (int k = 0; k <= B / 2; ++k) {
			CL y = 0;
			for (int n = 0; n < B; ++n) {
				L a = 2 * PI * ((int64_t(n) * k) % B) / B;
				y += x[n] * CL(std::cos(a), -std::sin(a));
			}
			if (k == 0 || k == B / 2) {
				y = CL(y.real() / 2, 0);
				if (out[k].imag() != 0) { H::fail("bin %d has an imaginary part", k); break; }
			}
			L d = std::abs(y - CL(out[k].real(), out[k].imag()));
			if (!(d <= tol)) { H::fail("bin %d: (%.9Lg, %.9Lg) instead of (%.9Lg, %.9Lg)", k, L(out[k].real()), L(out[k].imag()), y.real(), y.imag()); break; }
		}
		for (int n = 0; n < B; ++n)
			if (L(in[n]) != x[n]) { H::fail("input changed"); break; }
		delete[] reinterpret_cast<C *>(in);
		delete[] out;
	}
	delete trans;
}
template <int... B>
static void list(int n)
{
	(one<double, B>(1e-13L, n), ...);
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	int n = H::thorough ? 60 : 6;
	list<2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 42, 46, 58, 62, 64, 90, 100, 128, 150, 256, 338, 512>(n);
	one<float, 480>(1e-5L, n);
	one<float, 66>(1e-5L, n);
	return H::done();
}
