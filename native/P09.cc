// quick_select on tagged elements: order, permutation, guards; several value patterns and sizes around the cutoff
#include "h.hh"
#include "quick.hh"
struct E { int key, tag; };
static bool operator<(const E &a, const E &b) { return a.key < b.key; }
static bool operator>(const E &a, const E &b) { return a.key > b.key; }
static void gen(std::vector<E> &v, int n, int kind)
{
	for (int i = 0; i < n; ++i) {
		int k = 0;
		switch (kind) {
		case 0: k = H::range(-1000000, 1000000); break;
		case 1: k = H::below(3); break;
		case 2: k = i; break;
		case 3: k = n - i; break;
		case 4: k = 7; break;
		case 5: k = std::min(i, n - i); break;
		case 6: k = i % 5; break;
		case 7: k = i + (H::below(10) ? 0 : H::range(-20, 20)); break;
		case 8: k = H::coin() ? INT32_MAX : INT32_MIN; break;
		case 9: k = -std::min(i, n - i); break;
		}
		v[i + 4] = { k, i };
	}
}
static void one(int n, int kind, int k)
{
	std::vector<E> v(n + 8, E{ -77, -77 });
	gen(v, n, kind);
	std::vector<E> o = v;
	std::vector<int> ks(n);
	std::string d;
	for (int i = 0; i < n; ++i) { ks[i] = v[i + 4].key; if (i < 40) d += H::str("%d,", ks[i]); }
	std::nth_element(ks.begin(), ks.begin() + k, ks.end());
	H::kase(n > 32, "n=%d k=%d kind=%d values %s", n, k, kind, d.c_str());
	E r = DSP::quick_select(v.data() + 4, k, n);
	if (r.key != ks[k]) H::fail("returned %d, expected %d", r.key, ks[k]);
	for (int i = 0; i < 4; ++i)
		if (v[i].key != -77 || v[n + 4 + i].key != -77) H::fail("element outside the array changed");
	std::vector<char> seen(n, 0);
	for (int i = 0; i < n; ++i) {
		E x = v[i + 4];
		if (i < k && x.key > r.key) H::fail("element %d before position k is greater", i);
		if (i >= k && x.key < r.key) H::fail("element %d after position k is smaller", i);
		if (x.tag < 0 || x.tag >= n || seen[x.tag] || o[x.tag + 4].key != x.key) H::fail("not a permutation at %d", i);
		seen[x.tag] = 1;
	}
	if (v[k + 4].key != r.key) H::fail("position k does not hold the result");
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int n = 1; n <= 70; ++n)
		for (int kind = 0; kind < 10; ++kind)
			for (int k = 0; k < n; ++k)
				one(n, kind, k);
	for (int r = 0; r < (H::thorough ? 20000 : 2000); ++r) {
		int n = H::range(33, 1200), k = H::below(4) ? H::below(n) : H::coin() ? 0 : n - 1;
		one(n, H::below(10), k);
	}
	H::kase(true, "k >= n must be rejected");
	if (!H::aborts([]{ int a[4] = { 1, 2, 3, 4 }; volatile int x = DSP::quick_select(a, 4, 4); (void)x; })) H::fail("k == n accepted");
	return H::done();
}
