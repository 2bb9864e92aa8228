#include "h.hh"
namespace DSP { using std::min; using std::max; }
#include "bip_buffer.hh"

template <typename T, int NUM> void run(int len)
{
	struct G { char a[64]; DSP::BipBuffer<T, NUM> b; char c[64]; } *g = new G;
	std::vector<T> x(NUM, T(0));
	const char *lo = (const char *)&g->b, *hi = (const char *)(&g->b + 1);
	for (int t = 0; t <= len; ++t) {
		const T *p;
		H::kase(t >= NUM, "BipBuffer<%d> after %d insertions of 1,2,3,..", NUM, t);
		if (t) { x.push_back(T(t)); p = g->b(T(t)); } else p = g->b();
		for (int r = 0; r < 2; ++r) {
			if ((const char *)p < lo || (const char *)(p + NUM) > hi) H::fail("window leaves the storage (r=%d)", r);
			for (int i = 0; i < NUM; ++i)
				if (p[i] != x[x.size() - NUM + i]) H::fail("element %d is %g, want %g (%s)", i, double(p[i]), double(x[x.size() - NUM + i]), r ? "argument-less call" : "inserting call");
			p = g->b();
		}
	}
	delete g;
}

int main(int argc, char **argv)
{
	H::init(argc, argv);
	run<int, 1>(20); run<int, 2>(30); run<int, 3>(40); run<float, 4>(50); run<int, 5>(60); run<double, 7>(100); run<int, 8>(100); run<int, 16>(200); run<int, 33>(400); run<float, 100>(1000);
	run<int, 500>(3000);
	return H::done();
}
