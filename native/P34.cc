// Netpbm files: header, codes written, values read back
#include "h.hh"
#include <vector>
#include <string>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include "netpbm.hh"
static std::string dir;
static void clean()
{
	if (!dir.empty()) {
		unlink((dir + "/a.pnm").c_str());
		unlink((dir + "/b.pnm").c_str());
		rmdir(dir.c_str());
	}
}
static double code(double v)
{
	v = std::min(std::max(v, 0.0), 1.0);
	return v <= 0.04045 / 12.92 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055;
}
static std::vector<unsigned char> slurp(const std::string &name)
{
	std::ifstream f(name, std::ios::binary);
	return std::vector<unsigned char>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
template <typename T>
static bool same(DSP::ReadPNM<T> &rd, int w, int h, bool mono)
{
	if (!rd.good() || rd.width() != w || rd.height() != h || rd.mono() != mono) { H::fail("header parsed as %d x %d, %s", rd.width(), rd.height(), rd.mono() ? "mono" : "colour"); return false; }
	return true;
}
template <typename T>
static void one(int r)
{
	std::string a = dir + "/a.pnm", b = dir + "/b.pnm";
	int w = H::range(1, r % 9 == 0 ? 300 : 12), h = H::range(1, 6), max = r % 3 == 0 ? 255 : r % 3 == 1 ? 1 + (r / 3) % 255 : H::range(1, 255);
	bool mono = H::coin();
	int ch = mono ? 1 : 3, n = w * h;
	double slack = std::is_same<T, float>::value ? 1e-3 : 1e-6;
	H::kase(true, "digits=%d width=%d height=%d max=%d mono=%d round=%d", std::numeric_limits<T>::digits, w, h, max, mono, r);
	std::vector<T> x(n * ch);
	for (T &v : x) {
		int kind = H::below(6);
		v = kind == 0 ? T(3 * H::sym()) : kind == 1 ? T(H::below(2)) : kind == 2 ? T(0.02 * H::uni()) : kind == 3 ? T(0.04045 / 12.92 * (0.98 + 0.04 * H::uni())) : T(H::uni());
	}
	{
		DSP::WritePNM<T> wr(a.c_str(), w, h, mono, max);
		if (wr.width() != w || wr.height() != h || wr.mono() != mono) H::fail("writer reports another size");
		for (int pos = 0; pos < n;) {
			int num = H::range(1, n - pos), stride = H::coin() ? -1 : ch + H::below(4), s = stride < 0 ? ch : stride;
			T *p = new T[(num - 1) * s + ch];
			for (int i = 0; i < (num - 1) * s + ch; ++i) p[i] = T(0.33);
			for (int i = 0; i < num; ++i) for (int c = 0; c < ch; ++c) p[i * s + c] = x[(pos + i) * ch + c];
			if (stride < 0 && H::coin()) wr.write(p, num); else wr.write(p, num, stride);
			delete[] p;
			pos += num;
		}
		if (!wr.good()) H::fail("writer not good");
	}
	std::vector<unsigned char> f = slurp(a);
	char head[64];
	int hl = std::snprintf(head, sizeof(head), "P%d %d %d %d\n", mono ? 5 : 6, w, h, max);
	if (f.size() != size_t(hl) + n * ch || !std::equal(head, head + hl, f.begin())) { H::fail("header or size of the file"); return; }
	for (int i = 0; i < n * ch; ++i)
		if (!(std::abs(f[hl + i] - max * code(x[i])) <= 0.5 + slack)) { H::fail("code %d of sample %d: value %.9g has %.9g", f[hl + i], i, double(x[i]), max * code(x[i])); return; }
	DSP::ReadPNM<T> rd(a.c_str());
	if (!same(rd, w, h, mono)) return;
	std::vector<T> y(n * ch);
	for (int pos = 0; pos < n;) {
		int num = H::range(1, n - pos), stride = H::coin() ? -1 : ch + H::below(4), s = stride < 0 ? ch : stride;
		int size = (num - 1) * s + ch;
		T *p = new T[size];
		for (int i = 0; i < size; ++i) p[i] = 77;
		if (stride < 0 && H::coin()) rd.read(p, num); else rd.read(p, num, stride);
		for (int i = 0; i < num; ++i) {
			for (int c = 0; c < ch; ++c) y[(pos + i) * ch + c] = p[i * s + c];
			for (int c = ch; c < s && i + 1 < num; ++c) if (p[i * s + c] != 77) { H::fail("read writes between the pixels"); delete[] p; return; }
		}
		delete[] p;
		pos += num;
	}
	if (!rd.good()) H::fail("reader not good");
	for (int i = 0; i < n * ch; ++i)
		if (!(std::abs(max * code(y[i]) - max * code(x[i])) <= 0.5 + slack)) { H::fail("sample %d written as %.9g with maximum %d is read as %.9g, code off by %.9g", i, double(x[i]), max, double(y[i]), max * (code(y[i]) - code(x[i]))); return; }
	{
		DSP::WritePNM<T> wr(b.c_str(), w, h, mono, max);
		wr.write(y.data(), n);
	}
	if (slurp(b) != f) H::fail("writing what was read gives another file");
}
// all codes of all maximum values
template <typename T>
static void codes(int max)
{
	std::string a = dir + "/a.pnm", b = dir + "/b.pnm";
	H::kase(true, "all codes, digits=%d max=%d", std::numeric_limits<T>::digits, max);
	{
		std::ofstream f(a, std::ios::binary | std::ios::trunc);
		f << "P5 " << max + 1 << " 1 " << max << "\n";
		for (int i = 0; i <= max; ++i) f.put(i);
	}
	DSP::ReadPNM<T> rd(a.c_str());
	if (!same(rd, max + 1, 1, true)) return;
	std::vector<T> y(max + 1);
	rd.read(y.data(), max + 1);
	for (int i = 0; i <= max; ++i)
		if (!(std::abs(max * code(y[i]) - i) <= (std::is_same<T, float>::value ? 1e-3 : 1e-3))) { H::fail("code %d of %d reads %.9g, whose code is %.9g", i, max, double(y[i]), max * code(y[i])); return; }
	{
		DSP::WritePNM<T> wr(b.c_str(), max + 1, 1, true, max);
		wr.write(y.data(), max + 1);
	}
	if (slurp(a) != slurp(b)) H::fail("writing the codes read gives other codes");
}
static std::string gap()
{
	switch (H::below(5)) {
	case 0: return " ";
	case 1: return "\n";
	case 2: return " \t ";
	case 3: return "\n# a comment 12 34\n";
	default: return "\n#\n#P5 9 9 9\n  ";
	}
}
static void header(int r)
{
	std::string a = dir + "/a.pnm";
	int w = H::range(1, r % 2 ? 20 : 70000), h = H::range(1, 30000), max = H::range(1, 255);
	bool mono = H::coin();
	std::string s = std::string("P") + (mono ? "5" : "6") + gap() + std::to_string(w) + gap() + std::to_string(h) + gap() + std::to_string(max) + (H::coin() ? "\n" : " ");
	H::kase(true, "header width=%d height=%d max=%d mono=%d length=%zu round=%d", w, h, max, mono, s.size(), r);
	{
		std::ofstream f(a, std::ios::binary | std::ios::trunc);
		f << s;
		for (int i = 0; i < 3; ++i) f.put(i == 0 ? max : 0);
	}
	DSP::ReadPNM<double> rd(a.c_str());
	if (!same(rd, w, h, mono)) return;
	double p[3] = { 7, 7, 7 };
	rd.read(p, 1);
	if (!(std::abs(p[0] - 1) < 1e-9)) H::fail("first sample %g instead of 1", p[0]);
	for (int i = 1; i < 3; ++i) if (p[i] != (mono ? 7 : 0)) H::fail("sample %d is %g", i, p[i]);
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	char t[] = "./dspvXXXXXX";
	if (!mkdtemp(t)) return 2;
	dir = t;
	std::atexit(clean);
	int n = H::thorough ? 5000 : 400;
	for (int max = 1; max < 256; ++max) codes<double>(max);
	for (int max = 1; max < 256; ++max) codes<float>(max);
	for (int i = 0; i < n; ++i) {
		one<float>(i);
		one<double>(i);
		header(i);
	}
	return H::done();
}
