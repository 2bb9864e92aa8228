// complex operations on small integers (exact) against std::complex arithmetic by definition, quotients and polar form with tolerance
#include "h.hh"
namespace DSP { using std::sqrt; using std::atan2; using std::cos; using std::sin; }
#include "complex.hh"
typedef DSP::Complex<double> C;
static void is(const char *what, C v, double re, double im, double tol = 0)
{
	if (!(std::fabs(v.real() - re) <= tol) || !(std::fabs(v.imag() - im) <= tol)) H::fail("%s = (%.17g, %.17g) instead of (%.17g, %.17g)", what, v.real(), v.imag(), re, im);
}
static void isr(const char *what, double v, double w, double tol = 0) { if (!(std::fabs(v - w) <= tol)) H::fail("%s = %.17g instead of %.17g", what, v, w); }
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 400000 : 40000); ++r) {
		double a = H::range(-9, 9), b = H::range(-9, 9), c = H::below(8) ? H::range(-9, 9) : a, d = H::below(8) ? H::range(-9, 9) : b;
		H::kase(a * b * c * d != 0, "z=(%g,%g) w=(%g,%g)", a, b, c, d);
		C z(a, b), w(c, d), y;
		is("z+w", z + w, a + c, b + d); is("z-w", z - w, a - c, b - d); is("-z", -z, -a, -b); is("+z", +z, a, b);
		is("z*w", z * w, a * c - b * d, a * d + b * c); is("s*z", c * z, c * a, c * b);
		y = z; is("z+=w", y += w, a + c, b + d); is("z after +=", y, a + c, b + d);
		y = z; is("z-=w", y -= w, a - c, b - d); is("z after -=", y, a - c, b - d);
		y = z; is("z*=w", y *= w, a * c - b * d, a * d + b * c); is("z after *=", y, a * c - b * d, a * d + b * c);
		y = z; is("z*=s", y *= c, a * c, b * c); is("z after *=s", y, a * c, b * c);
		y = z; y *= y; is("z*=z", y, a * a - b * b, 2 * a * b); y = z; y += y; is("z+=z", y, 2 * a, 2 * b);
		y = z; is("z=s", y = c, c, 0); is("z after =s", y, c, 0); y.real(d); is("real(d)", y, d, 0); y.imag(a); is("imag(a)", y, d, a);
		is("C(s)", C(c), c, 0); is("C()", C(), 0, 0); is("conj", conj(z), a, -b);
		double n = c * c + d * d;
		if (n != 0) {
			double tol = 1e-13;
			is("z/w", z / w, (a * c + b * d) / n, (b * c - a * d) / n, tol); is("s/w", a / w, a * c / n, -a * d / n, tol);
			y = z; is("z/=w", y /= w, (a * c + b * d) / n, (b * c - a * d) / n, tol); is("z after /=", y, (a * c + b * d) / n, (b * c - a * d) / n, tol);
		}
		if (c != 0) {
			is("z/s", z / c, a / c, b / c, 1e-14); y = z; is("z/=s", y /= c, a / c, b / c, 1e-14); is("z after /=s", y, a / c, b / c, 1e-14);
		}
		if ((z == w) != (a == c && b == d)) H::fail("==");
		if ((z != w) != (a != c || b != d)) H::fail("!=");
		isr("norm", norm(z), a * a + b * b); isr("abs", abs(z), std::hypot(a, b), 1e-14); isr("arg", arg(z), std::atan2(b, a), 1e-15);
		double m = H::uni() * 4, p = H::sym() * 7;
		is("polar", DSP::polar(m, p), m * std::cos(p), m * std::sin(p), 1e-14);
		DSP::Complex<float> f(a, b), g(c, d); f *= g;
		isr("float re", f.real(), a * c - b * d); isr("float im", f.imag(), a * d + b * c);
	}
	return H::done();
}
