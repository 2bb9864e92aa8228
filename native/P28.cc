// Windows against their textbook formulas in extended precision
#include "h.hh"
namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; using std::cos; }
#include "window.hh"
typedef long double L;
static const L PI = 3.141592653589793238462643383279502884L;
static L i0(L x) { L s = 0, t = 1; for (int m = 1; m < 400; ++m) { s += t * t; t *= x / (2 * m); } return s; }
template <typename T>
struct Check
{
	L tol;
	template <typename W>
	void operator()(const char *nm, W w, int n, int N, L ref, bool peak = true)
	{
		H::kase(n, "%s n=%d N=%d digits=%d", nm, n, N, std::numeric_limits<T>::digits);
		L v = w(n, N), m = w(N - 1 - n, N);
		if (!(std::fabs(v - ref) <= tol)) H::fail("%.12Lg instead of %.12Lg", v, ref);
		if (!(std::fabs(v - m) <= 2 * tol)) H::fail("not symmetric: %.12Lg and %.12Lg", v, m);
		if (peak && 2 * n == N - 1 && !(std::fabs(v - 1) <= tol)) H::fail("%.12Lg at the centre", v);
	}
};
template <typename T>
static void all(L tol, int rounds)
{
	Check<T> c{tol};
	for (int i = 0; i < rounds; ++i) {
		int N = i < 40 ? i + 2 : i & 1 ? H::range(2, 200) : H::range(2, 20000);
		T a = T(0.05 + 3 * H::uni()), b = T(H::sym()), d = T(H::sym());
		T s = T(0.1 + H::uni());
		if (i % 8 == 1) a = 2;
		DSP::Rect<T> re;
		H::kase(true, "rectangular N=%d", N);
		if (re(-1, N) != 0 || re(N, N) != 0 || re(0, N) != 1 || re(N - 1, N) != 1 || re(N / 2, N) != 1) H::fail("rectangular window");
		for (int k = 0; k < 16; ++k) {
			int n = k == 0 ? 0 : k == 1 ? N - 1 : k == 2 ? (N - 1) / 2 : H::below(N);
			L z = 2 * L(n) / (N - 1) - 1, ph = 2 * PI * n / (N - 1), co = std::cos(ph), c2 = std::cos(2 * ph);
			c("Hann", DSP::Hann<T>(), n, N, (1 - co) / 2);
			c("Hamming", DSP::Hamming<T>(), n, N, 0.54L - 0.46L * co);
			if (n == 0 && !(std::fabs(L(DSP::Hann<T>()(0, N))) <= tol && std::fabs(L(DSP::Hamming<T>()(0, N)) - 0.08L) <= tol)) H::fail("value at the end");
			c("Lanczos", DSP::Lanczos<T>(), n, N, z == 0 ? 1 : std::sin(PI * z) / (PI * z));
			c("Blackman", DSP::Blackman<T>(), n, N, (7938 - 9240 * co + 1430 * c2) / 18608);
			c("Blackman(a)", DSP::Blackman<T>(b), n, N, (1 - L(b)) / 2 - co / 2 + L(b) / 2 * c2);
			c("Blackman(a0, a1, a2)", DSP::Blackman<T>(a, b, d), n, N, L(a) - L(b) * co + L(d) * c2, false);
			L u = z / L(s);
			c("Gauss", DSP::Gauss<T>(s), n, N, std::exp(-u * u / 2));
			L rd = std::max(L(0), 1 - z * z);
			c("Kaiser", DSP::Kaiser<T>(a), n, N, i0(PI * a * std::sqrt(rd)) / i0(PI * a));
		}
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	int n = H::thorough ? 20000 : 1500;
	all<double>(1e-12L, n);
	all<float>(2e-5L, n / 4);
	return H::done();
}
