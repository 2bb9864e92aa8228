// Unit circle functions against the C library in extended precision
#include "h.hh"
#include "unit_circle.hh"
typedef long double L;
static const L TP = 6.283185307179586476925286766559005768L;
static L worst = 0;
template <typename T>
static void one(int n, int N, L tol)
{
	typedef DSP::UnitCircle<T> U;
	L x = TP * n / N;
	H::kase(n % N, "n=%d N=%d digits=%d", n, N, std::numeric_limits<T>::digits);
	L c = U::cos(n, N), s = U::sin(n, N), r = U::rad(n, N);
	L ec = std::fabs(c - std::cos(x)), es = std::fabs(s - std::sin(x));
	if (sizeof(T) == 8) worst = std::max(worst, std::max(ec, es));
	if (!(ec <= tol)) H::fail("cos: %.20Lg instead of %.20Lg", c, std::cos(x));
	if (!(es <= tol)) H::fail("sin: %.20Lg instead of %.20Lg", s, std::sin(x));
	if (!(std::fabs(r - x) <= 4 * tol * (1 + std::fabs(x)))) H::fail("rad: %.20Lg instead of %.20Lg", r, x);
	if (n * 4LL % N == 0) {
		int k = int(((n * 4LL / N) % 4 + 4) % 4);
		if (c != (k == 0) - (k == 2)) H::fail("cos: %.20Lg is not exact", c);
		if (s != (k == 1) - (k == 3)) H::fail("sin: %.20Lg is not exact", s);
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	const L D = 1e-15L + 4 * 0x1p-53L, F = 1e-15L + 4 * 0x1p-24L;
	int M = H::thorough ? 1500 : 260;
	for (int N = 1; N <= M; ++N)
		for (int n = -N; n <= N; ++n) { one<double>(n, N, D); one<float>(n, N, F); }
	for (int i = 0; i < (H::thorough ? 2000000 : 200000); ++i) {
		int N = 1 + (H::range(0, (1 << 28) - 3) >> H::below(20));
		int n = H::range(-N, N);
		if (H::below(4) == 0) n = int((long long)N * H::range(-8, 8) / 8) + H::range(-2, 2);
		n = std::max(-N, std::min(N, n));
		one<double>(n, N, D);
		if (i & 1) one<float>(n, N, F);
	}
	constexpr double k = DSP::UnitCircle<double>::cos(1, 8);
	if (!(std::fabs(k - std::sqrt(0.5L)) <= D)) H::fail("constant cos(1, 8) is %.20g", k);
	printf("# worst error %Lg\n", worst);
	return H::done();
}
