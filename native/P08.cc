// quick_sort on tagged elements: order, permutation, guards; several value patterns and sizes around the cutoff
#include "h.hh"
#include "quick.hh"
struct E { int key, tag; };
static bool operator<(const E &a, const E &b) { return a.key < b.key; }
static bool operator>(const E &a, const E &b) { return a.key > b.key; }
static void gen(std::vector<E> &v, int n, int kind)
{
	for (int i = 0; i < n; ++i) {
		int k = 0;
		switch (kind) {
		case 0: k = H::range(-1000000, 1000000); break;
		case 1: k = H::below(3); break;
		case 2: k = i; break;
		case 3: k = n - i; break;
		case 4: k = 7; break;
		case 5: k = std::min(i, n - i); break;
		case 6: k = i % 5; break;
		case 7: k = i + (H::below(10) ? 0 : H::range(-20, 20)); break;
		case 8: k = H::coin() ? INT32_MAX : INT32_MIN; break;
		case 9: k = -std::min(i, n - i); break;
		}
		v[i + 4] = { k, i };
	}
}
static void one(int n, int kind)
{
	std::vector<E> v(n + 8, E{ -77, -77 });
	gen(v, n, kind);
	std::vector<E> o = v;
	std::string d;
	for (int i = 0; i < n && i < 40; ++i) d += H::str("%d,", v[i + 4].key);
	H::kase(n > 32, "n=%d kind=%d values %s", n, kind, d.c_str());
	DSP::quick_sort(v.data() + 4, n);
	for (int i = 0; i < 4; ++i)
		if (v[i].key != -77 || v[n + 4 + i].key != -77) H::fail("element outside the array changed");
	std::vector<char> seen(n, 0);
	for (int i = 0; i < n; ++i) {
		E x = v[i + 4];
		if (i && x.key < v[i + 3].key) H::fail("not sorted at %d: %d after %d", i, x.key, v[i + 3].key);
		if (x.tag < 0 || x.tag >= n || seen[x.tag] || o[x.tag + 4].key != x.key) H::fail("not a permutation at %d", i);
		seen[x.tag] = 1;
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int n = 0; n <= 70; ++n)
		for (int kind = 0; kind < 10; ++kind)
			for (int r = 0; r < (H::thorough ? 20 : 3); ++r)
				one(n, kind);
	for (int r = 0; r < (H::thorough ? 3000 : 300); ++r)
		one(H::range(70, 1200), H::below(10));
	for (int kind = 0; kind < 10; ++kind) one(20000, kind);
	for (int r = 0; r < 200; ++r) { // plain doubles and bytes
		int n = H::range(0, 400);
		std::vector<double> a(n); std::vector<unsigned char> b(n);
		for (int i = 0; i < n; ++i) { a[i] = H::sym(); b[i] = H::below(256); }
		auto a2 = a; auto b2 = b;
		H::kase(true, "doubles and bytes n=%d", n);
		DSP::quick_sort(a.data(), n); DSP::quick_sort(b.data(), n);
		std::sort(a2.begin(), a2.end()); std::sort(b2.begin(), b2.end());
		if (a != a2) H::fail("doubles not sorted");
		if (b != b2) H::fail("bytes not sorted");
	}
	return H::done();
}
