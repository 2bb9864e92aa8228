// triggers against a direct state machine, values on, just beside and far from the thresholds
#include "h.hh"
#include "trigger.hh"
template <typename T> static void schmitt(DSP::SchmittTrigger<T> tr, T lo, T hi, bool on)
{
	for (int i = 0; i < 60; ++i) {
		T c[] = { lo, hi, T(lo - 1), T(lo + 1), T(hi - 1), T(hi + 1), std::numeric_limits<T>::is_integer ? lo : std::nextafter(lo, T(-1e9)),
			std::numeric_limits<T>::is_integer ? hi : std::nextafter(hi, T(1e9)), T(H::range(-100, 100)), T((lo + hi) / 2) };
		T x = c[H::below(10)];
		bool was = on;
		if (on && x < lo) on = false; else if (!on && x > hi) on = true;
		H::kase(on != was, "schmitt low=%g high=%g was %d input=%g", double(lo), double(hi), was, double(x));
		if (tr(x) != on) H::fail("output is not %d", on);
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 20000 : 1500); ++r) {
		double a = H::sym() * 50, b = H::sym() * 50, lo = std::min(a, b), hi = std::max(a, b);
		bool p = H::coin();
		schmitt<double>(DSP::SchmittTrigger<double>(lo, hi, p), lo, hi, p);
		schmitt<float>(DSP::SchmittTrigger<float>(float(hi), p), -float(hi), float(hi), p);
		schmitt<int>(DSP::SchmittTrigger<int>(-7, 12, p), -7, 12, p);
		schmitt<double>(DSP::SchmittTrigger<double>(lo, hi), lo, hi, false);
		schmitt<double>(DSP::SchmittTrigger<double>(), -1. / 3, 1. / 3, false);
		DSP::RisingEdgeTrigger re(p); DSP::FallingEdgeTrigger fe(p);
		bool q = p;
		for (int i = 0; i < 20; ++i) {
			bool x = H::coin();
			H::kase(x != q, "edge previous %d input %d", q, x);
			if (re(x) != (!q && x)) H::fail("rising edge");
			if (fe(x) != (q && !x)) H::fail("falling edge");
			q = x;
		}
	}
	H::kase(true, "default edges start off");
	if (!DSP::RisingEdgeTrigger()(true) || DSP::FallingEdgeTrigger()(false)) H::fail("default state");
	return H::done();
}
