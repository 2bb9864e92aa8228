// resamplers against kernel sums over their input
#include "h.hh"
#include <vector>
#include <deque>
#include <algorithm>
namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; using std::cos; using std::nearbyint; using std::abs; using std::min; using std::max; }
#include "resampler.hh"
static double bessel(double x)
{
	double s = 1, t = 1;
	for (int n = 1; n < 200; ++n) { t *= x / (2 * n); s += t * t; }
	return s;
}
template <int TAPS, int OVER>
struct Kernel
{
	DSP::UniformNaturalCubicSpline<TAPS * OVER, double, double> spline;
	Kernel(double rate, double cutoff, double alpha)
	{
		const int N = TAPS * OVER;
		double y[N];
		for (int n = 0; n < N; ++n) {
			double x = double(n) / OVER - (TAPS - 1) / 2.0, g = 2 * cutoff / rate, r = 2.0 * n / (N - 1) - 1;
			double z = M_PI * g * x;
			y[n] = g * (x == 0 ? 1 : std::sin(z) / z) * bessel(M_PI * alpha * std::sqrt(std::max(0.0, 1 - r * r))) / bessel(M_PI * alpha);
		}
		spline = DSP::UniformNaturalCubicSpline<TAPS * OVER, double, double>(y, 0, 1.0 / OVER);
	}
	double operator()(double x) { return spline(x); }
};
template <int TAPS, int OVER>
static void block(int rounds)
{
	for (int r = 0; r < rounds; ++r) {
		double rate = H::range(1, 48000), cutoff = rate * (0.05 + 0.4 * H::uni()), alpha = 1 + 3 * H::uni();
		double diff = r % 7 == 0 ? 0 : rate * (H::uni() - 0.5) * (r % 3 == 0 ? 0.99 : 0.01);
		int n = r % 11 == 0 ? H::range(0, TAPS + 1) : H::range(TAPS, 6 * TAPS + 30), stride = H::range(1, 3);
		H::kase(n > TAPS, "block TAPS=%d OVER=%d rate=%g cutoff=%g alpha=%g diff=%.17g samples=%d stride=%d", TAPS, OVER, rate, cutoff, alpha, diff, n, stride);
		DSP::Resampler<double, TAPS, OVER> res(rate, cutoff, alpha);
		Kernel<TAPS, OVER> ker(rate, cutoff, alpha);
		// exactly the elements of the strided block: the sanitizer sees accesses outside
		int size = n ? (n - 1) * stride + 1 : 0;
		double *in = new double[size], *out = new double[size];
		std::vector<double> x(size), want(size);
		for (int i = 0; i < size; ++i) {
			x[i] = in[i] = H::sym();
			want[i] = out[i] = 1000 + i;
		}
		double ratio = rate / (rate + diff);
		for (int i = 0; i < n - TAPS; ++i) {
			double pos = i * ratio;
			int s0 = std::nearbyint(pos);
			if (s0 + TAPS > n) continue;
			double sum = 0;
			for (int s = s0; s < s0 + TAPS; ++s) sum += ker(s - pos) * x[s * stride];
			want[(i + (TAPS - 1) / 2) * stride] = sum;
		}
		res(out, in, diff, n, stride);
		for (int i = 0; i < size; ++i) {
			if (!(std::abs(out[i] - want[i]) <= 1e-9)) { H::fail("element %d is %.12g instead of %.12g", i, out[i], want[i]); break; }
			if (in[i] != x[i]) { H::fail("input changed"); break; }
		}
		if (stride == 1 && n > 0) {
			std::fill(out, out + n, 0);
			res(out, in, diff, n);
			for (int i = 0; i < n; ++i)
				if (want[i] != 1000 + i && !(std::abs(out[i] - want[i]) <= 1e-9)) { H::fail("default stride: element %d is %.12g instead of %.12g", i, out[i], want[i]); break; }
		}
		delete[] in; delete[] out;
	}
}
template <int TAPS, int OVER>
static void stream(int rounds, int len)
{
	for (int r = 0; r < rounds; ++r) {
		double rate = H::range(1, 48000), cutoff = rate * (0.05 + 0.4 * H::uni()), alpha = 1 + 3 * H::uni();
		double d = r % 7 == 0 ? 0 : (H::uni() - 0.5) * (r % 3 == 0 ? 0.998 : r % 3 == 1 ? 0.2 : 0.01);
		double diff = d * rate;
		H::kase(d != 0, "stream TAPS=%d OVER=%d rate=%g cutoff=%g alpha=%g diff=%.17g", TAPS, OVER, rate, cutoff, alpha, diff);
		DSP::Resampler2<double, double, TAPS, OVER> res(rate, cutoff, alpha);
		Kernel<TAPS, OVER> ker(rate, cutoff, alpha);
		std::deque<double> h(TAPS, 0.0);
		double pos = 0;
		int64_t outs = 0;
		bool bad = false;
		for (int n = 1; n <= len && !bad; ++n) {
			double x = H::sym(), out[2] = { 1000, 1000 };
			h.push_back(x);
			h.pop_front();
			int got = res(out, x, diff), want = 0;
			if (pos < -0.5) {
				pos += 1;
			} else {
				do {
					if (want) pos -= 1;
					double sum = 0;
					for (int s = 0; s < TAPS; ++s) sum += ker(s + pos) * h[s];
					if (want < got && !(std::abs(out[want] - sum) <= 1e-9)) { H::fail("output %d of call %d is %.12g instead of %.12g", want, n, out[want], sum); bad = true; break; }
					pos += diff / rate;
					++want;
				} while (pos > 0.5);
			}
			if (!bad && got != want) { H::fail("call %d gives %d outputs instead of %d", n, got, want); bad = true; }
			outs += got;
			double exact = n * rate / (rate - diff);
			if (!bad && !(std::abs(outs - exact) <= 1 + 1e-6)) { H::fail("%lld outputs after %d inputs instead of %g", (long long)outs, n, exact); bad = true; }
		}
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	int k = H::thorough ? 20 : 2;
	block<2, 2>(40 * k);
	block<3, 1>(40 * k);
	block<5, 4>(40 * k);
	block<16, 7>(30 * k);
	block<33, 10>(20 * k);
	stream<2, 2>(20 * k, 400);
	stream<3, 1>(20 * k, 400);
	stream<9, 5>(20 * k, 400);
	stream<16, 16>(12 * k, 500);
	return H::done();
}
