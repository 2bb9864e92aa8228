// Arctangents against the C library in extended precision
#include "h.hh"
namespace DSP { using std::copysign; using std::abs; }
#include "atan2.hh"
typedef long double L;
static L worst = 0;
template <typename T>
static void one(T x, L u)
{
	H::kase(x != 0, "atan(%.20Lg) digits=%d", L(x), std::numeric_limits<T>::digits);
	L r = DSP::atan(x), w = std::atan(L(x)), e = std::fabs(r - w);
	if (sizeof(T) == 8) worst = std::max(worst, e);
	if (!(e <= 1e-15L + u * (x < 1 && x > -1 ? std::fabs(w) + 1 : 3))) H::fail("%.20Lg instead of %.20Lg", r, w);
	if ((r > 0) != (x > 0) || (r < 0) != (x < 0)) H::fail("%.20Lg has the wrong sign", r);
}
template <typename T>
static void two(T y, T x, L u)
{
	H::kase(y != 0 && x != 0, "atan2(%.20Lg, %.20Lg) signs %d %d digits=%d", L(y), L(x), std::signbit(y), std::signbit(x), std::numeric_limits<T>::digits);
	L r = DSP::atan2(y, x), w = std::atan2(L(y), x == 0 ? L(0) : L(x)), e = std::fabs(r - w);
	if (sizeof(T) == 8) worst = std::max(worst, e);
	if (!(e <= 1e-15L + u * (std::fabs(w) < 1 ? 3 : 5))) H::fail("%.20Lg instead of %.20Lg", r, w);
	if (std::signbit(r) != std::signbit(w) && (y == 0 || std::fabs(w) > 1e-30L)) H::fail("%.20Lg has the sign opposite to %.20Lg", r, w);
}
template <typename T>
static void all(L u, int n)
{
	const T E[] = { 0, T(-0.0), 1, -1, T(0.66), T(-0.66), T(2.41421356237309504880L), T(0.5), 2, T(0.41421356237309504880L), T(1e-20), T(1e20), T(3), T(-7), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), -std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min() };
	for (T a : E) {
		for (int k = -8; k <= 8; ++k) { T v = a; for (int i = 0; i < std::abs(k); ++i) v = std::nextafter(v, T(k < 0 ? -HUGE_VAL : HUGE_VAL)); if (std::isfinite(v)) { one<T>(v, u); one<T>(-v, u); } }
		for (T b : E) for (int k = 0; k < 4; ++k) two<T>(k & 1 ? -a : a, k & 2 ? -b : b, u);
	}
	for (int i = 0; i < n; ++i) {
		T s = T(std::exp(12 * H::sym()));
		one<T>(T(i & 1 ? 3 * H::sym() : s * (H::coin() ? 1 : -1)), u);
		T y = T(H::sym() * (i & 2 ? 1 : s)), x = T(H::sym());
		two<T>(y, x, u);
		if (i % 8 == 0) { two<T>(y, 0, u); two<T>(0, x, u); two<T>(T(-0.0), x, u); two<T>(y, T(-0.0), u); two<T>(x, x, u); two<T>(x, -x, u); }
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	int n = H::thorough ? 1000000 : 60000;
	all<double>(0x1p-52L, n);
	all<float>(0x1p-23L, n / 4);
	printf("# worst error %Lg\n", worst);
	return H::done();
}
