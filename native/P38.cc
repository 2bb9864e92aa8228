// helpers against their definitions, constants against the C library's
#include "h.hh"
#include "utils.hh"
typedef long double L;
template <typename T> static void cst(const char *n, T v, L w)
{
	H::kase(true, "constant %s in %d bytes", n, int(sizeof(T)));
	if (!(std::fabs(L(v) - w) <= std::fabs(w) * std::numeric_limits<T>::epsilon() / (sizeof(T) > 8 ? 1 : 2))) H::fail("%.21Lg instead of %.21Lg", L(v), w);
	if (sizeof(T) < 9 && v != T(w)) H::fail("not correctly rounded: %.21Lg instead of %.21Lg", L(v), L(T(w)));
}
template <typename T> static void consts()
{
	L pi = 4 * atanl(1);
	cst<T>("EighthPi", DSP::Const<T>::EighthPi(), pi / 8); cst<T>("FourthPi", DSP::Const<T>::FourthPi(), pi / 4);
	cst<T>("HalfPi", DSP::Const<T>::HalfPi(), pi / 2); cst<T>("Pi", DSP::Const<T>::Pi(), pi);
	cst<T>("TwoPi", DSP::Const<T>::TwoPi(), pi * 2); cst<T>("FourPi", DSP::Const<T>::FourPi(), pi * 4);
	cst<T>("SqrtPi", DSP::Const<T>::SqrtPi(), sqrtl(pi)); cst<T>("SqrtTwoPi", DSP::Const<T>::SqrtTwoPi(), sqrtl(2 * pi));
	cst<T>("InvSqrtTwo", DSP::Const<T>::InvSqrtTwo(), sqrtl(0.5L));
}
static bool near(double a, L b, double scale) { return std::fabs(a - b) <= 1e-14 * (std::fabs(b) + scale); }
int main(int argc, char **argv)
{
	H::init(argc, argv);
	consts<float>(); consts<double>(); consts<L>();
	L pi = 4 * atanl(1);
	for (int r = 0; r < (H::thorough ? 400000 : 40000); ++r) {
		double sc = std::pow(10., H::range(-6, 3)), x = H::below(8) ? H::sym() * sc : H::range(-3, 3), a = H::below(5) ? H::sym() * sc : x, b = H::below(5) ? H::sym() * sc : a, s = H::uni() * 5 + 0.01;
		int i = H::range(-20, 20), j = H::range(-20, 20), k = H::range(-20, 20);
		H::kase(x != 0, "x=%.17g a=%.17g b=%.17g s=%.17g i=%d j=%d k=%d", x, a, b, s, i, j, k);
		if (DSP::signum(x) != (x > 0 ? 1 : x < 0 ? -1 : 0)) H::fail("signum(x)");
		if (DSP::signum(i) != (i > 0 ? 1 : i < 0 ? -1 : 0)) H::fail("signum(i)");
		if (DSP::signum(float(x)) != (float(x) > 0 ? 1 : float(x) < 0 ? -1 : 0)) H::fail("signum(float)");
		double t = H::below(4) ? H::uni() : H::below(2);
		if (!near(DSP::lerp(a, b, t), L(a) + (L(b) - a) * t, std::fabs(a) + std::fabs(b))) H::fail("lerp at %.17g", t);
		if (!near(DSP::lerp(a, b, 0.), a, std::fabs(b)) || !near(DSP::lerp(a, b, 1.), b, std::fabs(a))) H::fail("lerp ends");
		double lo = std::min(a, b), hi = std::max(a, b); int il = std::min(i, j), ih = std::max(i, j);
		if (DSP::clamp(x, lo, hi) != std::max(lo, std::min(hi, x))) H::fail("clamp");
		if (DSP::clamp(k, il, ih) != std::max(il, std::min(ih, k))) H::fail("clamp int");
		double m = H::sym() * 3, y = m + H::sym() * 4 * s;
		L z = (L(y) - m) / s, pdf = expl(-z * z / 2) / (sqrtl(2 * pi) * s);
		if (!(std::fabs(DSP::normal_pdf(y, m, s) - pdf) <= 1e-12 * pdf)) H::fail("normal_pdf(%.17g, %.17g, %.17g) = %.17g instead of %.17Lg", y, m, s, DSP::normal_pdf(y, m, s), pdf);
		L w = x == 0 ? 1 : sinl(pi * x) / (pi * x);
		if (!near(DSP::sinc(x), w, x == 0 ? 0 : 1)) H::fail("sinc = %.17g instead of %.17Lg", DSP::sinc(x), w);
		if (DSP::delta(x) != (x == 0 ? 1 : 0)) H::fail("delta");
	}
	H::kase(true, "zero");
	if (DSP::sinc(0.) != 1 || DSP::delta(0.) != 1 || DSP::delta(1.) != 0 || DSP::signum(0.) != 0 || DSP::signum(-0.) != 0 || DSP::sinc(-0.) != 1) H::fail("values at zero");
	return H::done();
}
