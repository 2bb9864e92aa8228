// integrator, differentiator and both compositions on integer valued signals (exact in double)
#include "h.hh"
#include "calculus.hh"
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 20000 : 2000); ++r) {
		double c = H::below(3) ? H::range(-9, 9) : 0;
		DSP::Integrator<double> I(c), I1(c), I2(c); DSP::Differentiator<double> D(c), D1(c), D2(c);
		DSP::Integrator<int> K(3); DSP::Differentiator<int> L(3);
		double s = c, p = c; int ks = 3, lp = 3;
		H::kase(c != 0, "initial value %g", c);
		for (int i = 0; i < 40; ++i) {
			double x = H::range(-1000, 1000); int n = int(x);
			s += x; ks += n;
			if (I(x) != s) H::fail("integrator, call %d", i + 1);
			if (D(x) != x - p) H::fail("differentiator, call %d", i + 1);
			if (K(n) != ks || L(n) != n - lp) H::fail("integer versions, call %d", i + 1);
			p = x; lp = n;
			if (D1(I1(x)) != x) H::fail("differentiated integral, call %d", i + 1);
			if (I2(D2(x)) != x) H::fail("integrated difference, call %d", i + 1);
		}
	}
	H::kase(true, "defaults");
	if (DSP::Integrator<double>()(5) != 5 || DSP::Differentiator<double>()(5) != 5) H::fail("default initial values");
	return H::done();
}
