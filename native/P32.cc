// FM demodulators against the wrapped phase difference
#include "h.hh"
namespace DSP { using std::sqrt; using std::atan2; using std::sin; using std::cos; }
#include "const.hh"
#include "complex.hh"
#include "fmd.hh"
typedef long double L;
typedef std::complex<L> Z;
static const L pi = acosl(-1);
static void near(const char *w, L a, L b, L tol) { if (!(std::fabs(a - b) <= tol)) H::fail("%s: %.17Lg instead of %.17Lg", w, a, b); }
template <typename V> static void run(L eps)
{
	typedef DSP::Complex<V> C;
	DSP::FMD1<C> f1; DSP::FMD2<C> f2; DSP::FMD3<C> f3; DSP::FMD4<C> f4; DSP::FMD5<C> f5;
	V bw = V(0.01 + H::uni());
	f1.bandwidth(bw); f2.bandwidth(bw); f3.bandwidth(bw); f4.bandwidth(bw); f5.bandwidth(bw);
	Z p(1, 0), q(1, 0);
	L s = 1 / (L(bw) * pi);
	for (int i = 0; i < 12; ++i) {
		C x;
		switch (H::below(4)) {
		case 0: do { x = C(H::range(-3, 3), H::range(-3, 3)); } while (x.real() == 0 && x.imag() == 0); break;
		case 1: { L a = 2 * pi * H::uni(), m = expl(8 * H::sym()); x = C(m * cosl(a), m * sinl(a)); } break;
		case 2: { L a = std::arg(p) + 0.3L * H::sym(), m = std::abs(p) * (1 + 0.2L * H::sym()); x = C(m * cosl(a), m * sinl(a)); } break;
		default: { L a = pi * (H::coin() ? 1 : -1) + 0.2L * H::sym(), m = 1; x = C(m * cosl(a), m * sinl(a)); }
		}
		if (i == 6) {
			bw = V(0.01 + 3 * H::uni());
			s = 1 / (L(bw) * pi);
			f1.bandwidth(bw); f2.bandwidth(bw); f3.bandwidth(bw); f4.bandwidth(bw); f5.bandwidth(bw);
		}
		Z z(x.real(), x.imag());
		H::kase(true, "bw=%g step %d previous (%Lg,%Lg) input (%Lg,%Lg)", double(bw), i, p.real(), p.imag(), z.real(), z.imag());
		L d = std::arg(z * std::conj(p));
		V r[3] = { f1(x), f2(x), f3(x) };
		const char *n[3] = { "FMD1", "FMD2", "FMD3" };
		for (int k = 0; k < 3; ++k) {
			if (!(std::fabs(r[k]) <= s * pi * (1 + 8 * eps))) H::fail("%s: %.17Lg exceeds the wrapped range %.17Lg", n[k], L(r[k]), s * pi);
			if (std::fabs(d) > pi - 1e3L * eps)
				near(n[k], std::fabs(r[k]), s * std::fabs(d), 1e3L * eps * s);
			else
				near(n[k], r[k], s * d, 40 * eps * s);
		}
		L w4 = s * std::imag(z * std::conj(p)) / std::norm(z);
		L w5 = s / 2 * std::imag((z - q) * std::conj(p)) / std::norm(p);
		near("FMD4", f4(x), w4, 40 * eps * s * std::abs(p) / std::abs(z));
		near("FMD5", f5(x), w5, 40 * eps * s * (std::abs(z) + std::abs(q)) / std::abs(p));
		q = p; p = z;
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 200000 : 8000); ++r) {
		run<double>(std::numeric_limits<double>::epsilon());
		run<float>(std::numeric_limits<float>::epsilon());
	}
	return H::done();
}
