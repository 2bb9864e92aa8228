// robust line estimators against sorted medians
#include "h.hh"
#include "theil_sen.hh"
#include "repeated_median.hh"
typedef std::vector<double> V;
static double med(V v) { std::sort(v.begin(), v.end()); return v[v.size() / 2]; }
static void near(const char *w, double a, double b, double tol) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) H::fail("%s: %.17g instead of %.17g", w, a, b); }
template <typename E> static void common(const char *n, E &e, double slope, double yint)
{
	near((std::string(n) + " slope").c_str(), e.slope(), slope, 1e-12);
	near((std::string(n) + " yint").c_str(), e.yint(), yint, 1e-9);
	if (std::fabs(slope) > 1e-3) near((std::string(n) + " xint").c_str(), e.xint(), -e.yint() / e.slope(), 1e-12);
	double x = 10 * H::sym();
	near((std::string(n) + " value").c_str(), e(x), e.yint() + e.slope() * x, 1e-12);
}
template <int N> static void run()
{
	int len = H::below(3) ? N : H::range(2, N);
	V x(len), y(len);
	bool grid = H::coin(), dup = false;
	do {
		for (int i = 0; i < len; ++i) {
			x[i] = grid ? H::range(-len, len) : 10 * H::sym();
			y[i] = H::below(3) ? 2 * x[i] + 1 + (H::below(4) ? H::sym() : 20 * H::sym()) : H::range(-5, 5);
		}
		dup = false;
		for (int i = 0; i < len; ++i) for (int j = 0; j < i; ++j) dup |= x[i] == x[j];
		bool all = true;
		for (int i = 1; i < len; ++i) all &= x[i] == x[0];
		if (all) continue;
		break;
	} while (1);
	char t[2000]; int p = 0;
	for (int i = 0; i < len && p < 1900; ++i) p += snprintf(t + p, sizeof(t) - p, " (%g,%g)", x[i], y[i]);
	H::kase(len > 2, "capacity %d points%s", N, t);
	// the object and the points sit in exactly sized heap blocks: overruns are seen by the sanitizer
	double *px = new double[len], *py = new double[len];
	std::copy(x.begin(), x.end(), px); std::copy(y.begin(), y.end(), py);
	V s;
	for (int i = 0; i < len; ++i) for (int j = i + 1; j < len; ++j) if (x[i] != x[j]) s.push_back((y[j] - y[i]) / (x[j] - x[i]));
	auto *a = new DSP::TheilSenEstimator<double, N>();
	a->compute(px, py, len);
	double sl = med(s);
	V b;
	for (int i = 0; i < len; ++i) b.push_back(y[i] - sl * x[i]);
	common("Theil-Sen", *a, sl, med(b));
	delete a;
	if (!dup) {
		V m, n;
		for (int i = 0; i < len; ++i) {
			V u, w;
			for (int j = 0; j < len; ++j) if (j != i) { u.push_back((y[j] - y[i]) / (x[j] - x[i])); w.push_back((x[j] * y[i] - x[i] * y[j]) / (x[j] - x[i])); }
			m.push_back(med(u)); n.push_back(med(w));
		}
		auto *r = new DSP::RepeatedMedianEstimator<double, N>();
		r->compute(px, py, len);
		common("repeated median", *r, med(m), med(n));
		delete r;
		auto *q = new DSP::RepeatedMedianEstimator2<double, N>();
		q->compute(px, py, len);
		V c;
		for (int i = 0; i < len; ++i) c.push_back(y[i] - med(m) * x[i]);
		common("repeated median 2", *q, med(m), med(c));
		delete q;
	}
	for (int i = 0; i < len; ++i) if (px[i] != x[i] || py[i] != y[i]) H::fail("points were modified");
	delete[] px; delete[] py;
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int r = 0; r < (H::thorough ? 3000 : 200); ++r) { run<2>(); run<3>(); run<4>(); run<5>(); run<6>(); run<9>(); run<16>(); run<33>(); }
	for (int r = 0; r < (H::thorough ? 60 : 4); ++r) { run<64>(); run<130>(); }
	return H::done();
}
