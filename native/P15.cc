// frequency domain zero padding against the band-limited interpolation
#include "h.hh"
#include <vector>
#include <complex>
namespace DSP { using std::sqrt; using std::atan2; using std::sin; using std::cos; }
#include "complex.hh"
#include "fdzp.hh"
typedef long double L;
typedef std::complex<L> CL;
static const L PI = 3.141592653589793238462643383279502884L;
static CL turn(int64_t n, int64_t N)
{
	n %= N;
	return CL(std::cos(2 * PI * n / N), std::sin(2 * PI * n / N));
}
template <typename T, int M, int N>
static void one(L eps, int rounds)
{
	typedef DSP::Complex<T> C;
	auto *fdzp = new DSP::FDZP<M, N, C>;
	for (int r = 0; r < rounds; ++r) {
		C *in = new C[N], *out = new C[M];
		std::vector<CL> x(N), X(N);
		int kind = r % 3, pos = H::below(N);
		L norm = 0;
		for (int n = 0; n < N; ++n) {
			CL w = kind == 1 ? turn(int64_t(n) * pos, N) : CL(H::sym(), H::sym());
			in[n] = kind == 2 ? C(n == pos, 0) : C(w.real(), w.imag());
			x[n] = CL(in[n].real(), in[n].imag());
			norm += std::abs(x[n]);
		}
		H::kase(N > 1, "OUTPUT=%d INPUT=%d digits=%d kind=%d pos=%d", M, N, std::numeric_limits<T>::digits, kind, pos);
		(*fdzp)(out, in);
		for (int k = 0; k < N; ++k) {
			X[k] = 0;
			for (int n = 0; n < N; ++n) X[k] += x[n] * std::conj(turn(int64_t(n) * k, N));
			X[k] /= N;
		}
		for (int m = 0; m < M; ++m) {
			CL y = X[0];
			for (int k = 1; 2 * k < N; ++k) y += X[k] * turn(int64_t(m) * k, M) + X[N - k] * std::conj(turn(int64_t(m) * k, M));
			if (N % 2 == 0) y += X[N / 2] * turn(int64_t(m) * (N / 2), M).real();
			L d = std::abs(y - CL(out[m].real(), out[m].imag()));
			if (!(d <= eps * norm)) { H::fail("sample %d: (%.9Lg, %.9Lg) instead of (%.9Lg, %.9Lg)", m, L(out[m].real()), L(out[m].imag()), y.real(), y.imag()); break; }
			if (M % N == 0 && m % (M / N) == 0 && !(std::abs(x[m / (M / N)] - CL(out[m].real(), out[m].imag())) <= eps * norm)) { H::fail("sample %d does not reappear", m / (M / N)); break; }
		}
		for (int n = 0; n < N; ++n)
			if (L(in[n].real()) != x[n].real() || L(in[n].imag()) != x[n].imag()) { H::fail("input changed"); break; }
		delete[] in; delete[] out;
	}
	delete fdzp;
}
template <int N, int... M>
static void list(int n)
{
	(one<double, M, N>(1e-13L, n), ...);
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	int n = H::thorough ? 60 : 9;
	list<1, 2, 3, 7>(n);
	list<2, 3, 4, 5, 8>(n);
	list<3, 4, 5, 6, 9>(n);
	list<4, 5, 6, 7, 8, 12>(n);
	list<5, 6, 7, 8, 10, 16>(n);
	list<6, 7, 8, 9, 10, 12>(n);
	list<7, 8, 9, 10, 14, 21>(n);
	list<8, 9, 10, 11, 12, 13, 16>(n);
	list<9, 10, 13, 14, 27>(n);
	list<16, 17, 20, 24, 25, 32, 48>(n);
	list<21, 22, 32, 42, 63>(n);
	list<60, 62, 64, 100, 120, 180>(n);
	one<float, 128, 100>(1e-5L, n);
	one<float, 125, 25>(1e-5L, n);
	return H::done();
}
