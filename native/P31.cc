// phasor against accumulated angles, operations mixed at random
#include "h.hh"
namespace DSP { using std::sqrt; using std::atan2; using std::cos; using std::sin; }
#include "complex.hh"
#include "phasor.hh"
typedef DSP::Complex<double> C;
int main(int argc, char **argv)
{
	H::init(argc, argv);
	const long double pi = acosl(-1);
	for (int r = 0; r < (H::thorough ? 5000 : 500); ++r) {
		DSP::Phasor<C> p;
		long double ang = 0, d = 0;
		std::string h;
		for (int i = 0; i < 60; ++i) {
			int op = H::below(10);
			if (op == 0) { int N = H::range(1, 5000), n = H::range(-N, N); p.omega(n, N); d = 2 * pi * n / N; h = H::str("omega(%d, %d)", n, N); }
			else if (op == 1) { double v = H::sym() * 4; p.omega(v); d = v; h = H::str("omega(%.17g)", v); }
			else if (op == 2) { double v = H::sym(); p.freq(v); d = 2 * pi * v; h = H::str("freq(%.17g)", v); }
			else if (op == 3 && H::coin()) { p.reset(); ang = 0; h = "reset"; }
			H::kase(d != 0, "after %s, angle %.17Lg step %.17Lg", h.c_str(), ang, d);
			C z = p();
			if (!(std::fabs(z.real() - cosl(ang)) <= 1e-11 && std::fabs(z.imag() - sinl(ang)) <= 1e-11))
				H::fail("output (%.17g, %.17g) instead of (%.17Lg, %.17Lg)", z.real(), z.imag(), cosl(ang), sinl(ang));
			if (!(std::fabs(std::hypot(z.real(), z.imag()) - 1) <= 1e-14)) H::fail("magnitude %.17g", std::hypot(z.real(), z.imag()));
			ang += d;
		}
	}
	DSP::Phasor<C> p;
	p.freq(0.123456789);
	H::kase(true, "magnitude over two million calls");
	for (int i = 0; i < 2000000; ++i) { C z = p(); if (!(i & 1023) && !(std::fabs(std::hypot(z.real(), z.imag()) - 1) <= 1e-14)) H::fail("magnitude drifts to %.17g after %d calls", std::hypot(z.real(), z.imag()), i); }
	DSP::Phasor<DSP::Complex<float>> f;
	f.omega(1, 7);
	for (int i = 0; i < 2000000; ++i) { auto z = f(); if (!(i & 1023) && !(std::fabs(std::hypot(z.real(), z.imag()) - 1) <= 1e-6)) H::fail("float magnitude drifts to %.17g after %d calls", std::hypot(z.real(), z.imag()), i); }
	return H::done();
}
