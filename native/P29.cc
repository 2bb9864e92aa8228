// FIR prototypes against the ideal impulse responses in extended precision
#include "h.hh"
namespace DSP { using std::sin; using std::cos; }
#include "filter.hh"
typedef long double L;
static const L PI = 3.141592653589793238462643383279502884L;
// f*sinc(f*x) with f = 2*num/den, x = t/2: the phase pi*t*num/den reduced exactly
static L ideal(int64_t t, int64_t num, int64_t den)
{
	if (!t)
		return 2 * L(num) / den;
	int64_t r = (t * num) % (2 * den);
	return std::sin(PI * r / den) / (PI * t / 2);
}
static void check(const char *nm, L v, L ref, L tol)
{
	if (!(std::fabs(v - ref) <= tol)) H::fail("%s: %.12Lg instead of %.12Lg", nm, v, ref);
}
template <typename T>
static void all(L eps, int rounds)
{
	for (int i = 0; i < rounds; ++i) {
		int N = i < 64 ? i + 1 : i & 1 ? H::range(1, 200) : H::range(1, 20000);
		int den = i & 2 ? 1 << H::range(1, 14) : H::range(2, 50000), num = H::range(1, den / 2), num1 = H::range(1, den / 2);
		if (i % 8 == 3) { num = 1; den = 4; num1 = 2; }
		T c = T(num) / T(den), c1 = T(num1) / T(den);
		DSP::LowPass<T> lp(c);
		DSP::LowPass<T> lp1(c1);
		DSP::LowPass2<T> lp2(num, den);
		DSP::HighPass<T> hp(c);
		DSP::HighPass2<T> hp2(num, den);
		DSP::BandPass<T> bp(c, c1);
		DSP::HilbertTransform<T> ht;
		// direct evaluation looses up to the phase times the rounding unit
		L tol = 16 * eps, ftol = tol;
		for (int k = 0; k < 16; ++k) {
			int n = k == 0 ? 0 : k == 1 ? N - 1 : k == 2 ? (N - 1) / 2 : k == 3 ? N / 2 : H::below(N);
			int64_t t = 2 * n - (N - 1);
			if (std::abs(t * num) >= INT64_C(1) << 31)
				continue;
			H::kase(t, "n=%d N=%d cutoffs %d/%d %d/%d digits=%d", n, N, num, den, num1, den, std::numeric_limits<T>::digits);
			L l = ideal(t, num, den), l1 = ideal(t, num1, den), s = ideal(t, 1, 2);
			check("LowPass", lp(n, N), l, ftol);
			check("LowPass2", lp2(n, N), l, tol);
			check("HighPass", hp(n, N), s - l, ftol);
			check("HighPass2", hp2(n, N), s - l, tol);
			check("BandPass", bp(n, N), l1 - l, ftol);
			L h = N & 1 ? (t / 2) & 1 ? 2 / (PI * (t / 2)) : 0 : 2 / (PI * t);
			check("HilbertTransform", ht(n, N), h, tol);
			int m = N - 1 - n;
			check("LowPass mirrored", lp(m, N), l, ftol);
			check("LowPass2 mirrored", lp2(m, N), l, tol);
			check("HighPass mirrored", hp(m, N), s - l, ftol);
			check("HighPass2 mirrored", hp2(m, N), s - l, tol);
			check("BandPass mirrored", bp(m, N), l1 - l, ftol);
			check("HilbertTransform mirrored", ht(m, N), -h, tol);
		}
	}
	for (int i = 0; i < 1000; ++i) {
		T x = i ? T(20 * H::sym()) : T(0);
		H::kase(i, "sinc(%.9g)", double(x));
		check("sinc", DSP::sinc(x), x == 0 ? 1 : std::sin(PI * x) / (PI * x), 16 * eps);
		if (DSP::delta(x) != T(x == 0)) H::fail("delta");
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	int n = H::thorough ? 40000 : 4000;
	all<double>(0x1p-52L, n);
	all<float>(0x1p-23L, n);
	return H::done();
}
