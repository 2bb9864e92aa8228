// FLAGS: -O2 -ffast-math
// Kahan summation, built the way the project builds it
#include "h.hh"
#include <cstring>
#include "kahan.hh"
typedef __float128 Q;
static Q qabs(Q x) { return x < 0 ? -x : x; }
// both members count: the sum and its correction
template <typename T> static bool equal(const DSP::Kahan<T> &a, const DSP::Kahan<T> &b)
{
	if (sizeof(a) != 2 * sizeof(T))
		return DSP::Kahan<T>(a) == b;
	T x[2], y[2];
	std::memcpy(x, &a, sizeof(a));
	std::memcpy(y, &b, sizeof(b));
	return x[0] == y[0] && x[1] == y[1];
}
template <typename T> static void run(const char *name, int n, int kind)
{
	std::vector<T> v;
	T init = kind == 2 ? T(0) : T(H::sym());
	for (int i = 0; i < n; ++i) {
		T x;
		switch (kind) {
		case 0: x = T(H::sym()); break;
		case 1: x = T(1) + T(H::uni()) * T(0.25); break;
		case 2: x = T(0.1); break;
		case 3: x = i ? T(H::uni()) * std::numeric_limits<T>::epsilon() / 4 : T(1); break;
		default: x = std::ldexp(T(H::sym()), H::range(-20, 20));
		}
		v.push_back(x);
	}
	H::kase(n > 1, "%s kind %d n %d init %g", name, kind, n, double(init));
	Q s = init, m = qabs(init);
	DSP::Kahan<T> k(init), c;
	if (k() != init || c() != 0) H::fail("initial values %g %g", double(k()), double(c()));
	const T u = std::numeric_limits<T>::epsilon() / 2;
	for (int i = 0; i < n; ++i) {
		s += v[i]; m += qabs(v[i]);
		T r = k(v[i]);
		if (r != k()) H::fail("step %d returns %.17g, value is %.17g", i, double(r), double(k()));
		Q bound = 3 * Q(u) * m + 24 * Q(u) * u * (i + 1) * m;
		if (!(qabs(Q(r) - s) <= bound)) H::fail("step %d: sum %.17g, exact %.17g, error %.3g exceeds %.3g", i, double(r), double(s), double(qabs(Q(r) - s)), double(bound));
	}
	T z = 0;
	for (int i = 0; i < n; ++i)
		z = c(v[i]);
	if (z != DSP::kahan_sum(v.begin(), v.end(), T(0))) H::fail("adding to a default constructed sum yields %.17g", double(z));
	T t = DSP::kahan_sum(v.begin(), v.end(), init), p = DSP::kahan_sum(v.data(), v.data() + n, init);
	if (t != k() || p != t) H::fail("kahan_sum %.17g %.17g instead of %.17g", double(t), double(p), double(k()));
	DSP::Kahan<T> d(k);
	if (!(d == k) || !equal(d, k)) H::fail("copy differs");
	for (int i = 0; i < 4; ++i) {
		T x = i == 0 ? T(0) : i == 1 ? T(H::sym()) : i == 2 ? k() * u / 64 : T(0);
		DSP::Kahan<T> old(k), ref(k);
		bool r = k.same(x);
		ref(x);
		if (!equal(ref, k)) H::fail("same does not add its argument %g", double(x));
		if ((old == k) != equal(old, k)) H::fail("comparison with the state before adding %g gives %d", double(x), old == k);
		if (r != equal(old, k)) H::fail("same(%g) returned %d", double(x), r);
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int t = 0; t < (H::thorough ? 200 : 12); ++t)
		for (int kind = 0; kind < 5; ++kind)
			for (int n : { 0, 1, 2, 3, 10, 1000, 20000 }) {
				run<float>("float", n, kind);
				run<double>("double", n, kind);
			}
	return H::done();
}
