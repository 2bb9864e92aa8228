// WAV files: layout of what is written, what is read back
#include "h.hh"
#include <vector>
#include <string>
#include <cstring>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include "wav.hh"
static std::string dir;
static void clean()
{
	if (!dir.empty()) {
		unlink((dir + "/a.wav").c_str());
		rmdir(dir.c_str());
	}
}
static uint32_t le(const std::vector<unsigned char> &b, size_t p, int n)
{
	uint32_t v = 0;
	for (int i = 0; i < n && p + i < b.size(); ++i) v |= uint32_t(b[p + i]) << (8 * i);
	return v;
}
static bool tag(const std::vector<unsigned char> &b, size_t p, const char *t)
{
	return p + 4 <= b.size() && !std::memcmp(&b[p], t, 4);
}
static uint32_t bits_of(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
template <typename T>
static void one(int r)
{
	std::string name = dir + "/a.wav";
	int fmt = H::below(3), bits = fmt == 0 ? 8 : fmt == 1 ? 16 : 32, bytes = bits / 8;
	int ch = r % 5 == 0 ? H::range(1, 12) : H::range(1, 3), rate = r % 4 == 0 ? H::range(1, 192000) : 8000 * H::range(1, 6);
	int calls = H::range(1, 5);
	H::kase(true, "digits=%d bits=%d channels=%d rate=%d calls=%d round=%d", std::numeric_limits<T>::digits, bits, ch, rate, calls, r);
	std::vector<T> want; // interleaved samples
	std::vector<bool> quiet;
	{
		DSP::WriteWAV<T> wav(name.c_str(), rate, bits, ch);
		if (wav.rate() != rate || wav.channels() != ch) H::fail("writer reports other rate or channels");
		for (int k = 0; k < calls; ++k) {
			int num = k || calls > 1 ? H::range(0, 40) : H::range(1, 40);
			if (k == 0) num = std::max(num, 1);
			if (H::below(4) == 0) {
				wav.silence(num);
				for (int i = 0; i < num * ch; ++i) { want.push_back(0); quiet.push_back(true); }
				continue;
			}
			int stride = H::coin() ? -1 : ch + H::below(4), s = stride < 0 ? ch : stride;
			std::vector<T> buf(num ? (num - 1) * s + ch : 0);
			for (T &v : buf) {
				int kind = H::below(10);
				v = kind == 0 ? T(H::range(-3, 3)) : kind == 1 ? T(H::sym() * 3) : kind == 2 ? T((H::range(-40000, 40000) + 0.5) / 32767) : kind == 3 ? T(H::range(-140, 140) / 127.0) : T(H::sym());
			}
			T *p = new T[buf.size()];
			std::copy(buf.begin(), buf.end(), p);
			if (stride < 0 && H::coin()) wav.write(p, num); else wav.write(p, num, stride);
			delete[] p;
			for (int n = 0; n < num; ++n) for (int c = 0; c < ch; ++c) { want.push_back(buf[n * s + c]); quiet.push_back(false); }
		}
		if (!wav.good()) H::fail("writer not good");
	}
	int frames = want.size() / ch;
	std::ifstream f(name, std::ios::binary);
	std::vector<unsigned char> b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	size_t head = bits == 32 ? 58 : 44, data = size_t(frames) * ch * bytes;
	if (b.size() != head + data) { H::fail("file has %zu bytes instead of %zu", b.size(), head + data); return; }
	if (!tag(b, 0, "RIFF") || !tag(b, 8, "WAVE") || !tag(b, 12, "fmt ")) H::fail("RIFF, WAVE or fmt tag");
	if (le(b, 4, 4) != b.size() - 8) H::fail("RIFF chunk size %u", le(b, 4, 4));
	if (le(b, 16, 4) != (bits == 32 ? 18u : 16u)) H::fail("fmt chunk size %u", le(b, 16, 4));
	if (le(b, 20, 2) != (bits == 32 ? 3u : 1u)) H::fail("format %u", le(b, 20, 2));
	if (le(b, 22, 2) != uint32_t(ch) || le(b, 24, 4) != uint32_t(rate)) H::fail("channels %u rate %u", le(b, 22, 2), le(b, 24, 4));
	if (le(b, 28, 4) != uint32_t(rate * ch * bytes) || le(b, 32, 2) != uint32_t(ch * bytes) || le(b, 34, 2) != uint32_t(bits)) H::fail("byte rate %u block align %u bits %u", le(b, 28, 4), le(b, 32, 2), le(b, 34, 2));
	if (bits == 32 && (le(b, 36, 2) != 0 || !tag(b, 38, "fact") || le(b, 42, 4) != 4 || le(b, 46, 4) != uint32_t(frames))) H::fail("extension size or fact chunk");
	if (!tag(b, head - 8, "data") || le(b, head - 4, 4) != data) H::fail("data chunk size %u", le(b, head - 4, 4));
	double factor = bits == 8 ? 127 : 32767, low = bits == 8 ? -128 : -32768, high = bits == 8 ? 127 : 32767;
	auto check = [&](T got, int i, const char *what) {
		if (bits == 32) {
			if (bits_of(float(want[i])) != bits_of(float(got))) { H::fail("%s: sample %d is %.9g instead of %.9g", what, i, double(got), double(want[i])); return false; }
			return true;
		}
		double w = std::min(std::max(double(want[i]), low / factor), high / factor);
		double tol = (0.5 + (std::is_same<T, float>::value ? 0.01 : 1e-9)) / factor;
		if (!(std::abs(double(got) - w) <= tol)) { H::fail("%s: sample %d is %.9g instead of %.9g", what, i, double(got), w); return false; }
		if (quiet[i] && got != 0) { H::fail("%s: silence reads %g", what, double(got)); return false; }
		return true;
	};
	// stored codes
	for (int i = 0; i < frames * ch; ++i) {
		T got;
		if (bits == 8) got = T((int(b[head + i]) - 128) / factor);
		else if (bits == 16) got = T(int16_t(le(b, head + 2 * i, 2)) / factor);
		else { uint32_t u = le(b, head + 4 * i, 4); float g; std::memcpy(&g, &u, 4); got = g; }
		if (!check(got, i, "stored")) break;
	}
	DSP::ReadWAV<T> rd(name.c_str());
	if (!rd.good()) { H::fail("reader not good"); return; }
	if (rd.rate() != rate || rd.channels() != ch || rd.bits() != bits || rd.frames() != frames) { H::fail("reader reports rate %d channels %d bits %d frames %d", rd.rate(), rd.channels(), rd.bits(), rd.frames()); return; }
	for (int pos = 0; pos < frames;) {
		int num = H::range(0, frames - pos);
		if (num == 0 && H::coin()) num = frames - pos;
		if (H::below(3) == 0) {
			rd.skip(num);
			pos += num;
			continue;
		}
		int stride = H::coin() ? -1 : ch + H::below(4), s = stride < 0 ? ch : stride;
		size_t size = num ? (num - 1) * s + ch : 0;
		T *p = new T[size];
		for (size_t i = 0; i < size; ++i) p[i] = 77;
		if (stride < 0 && H::coin()) rd.read(p, num); else rd.read(p, num, stride);
		bool ok = true;
		for (int n = 0; n < num && ok; ++n) {
			for (int c = 0; c < ch && ok; ++c) ok = check(p[n * s + c], (pos + n) * ch + c, "read");
			for (int c = ch; c < s && ok && n + 1 < num; ++c) if (p[n * s + c] != 77) { H::fail("read writes between the frames"); ok = false; }
		}
		delete[] p;
		if (!ok) return;
		if (!rd.good()) { H::fail("reader not good inside the file"); return; }
		pos += num;
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	char t[] = "./dspvXXXXXX";
	if (!mkdtemp(t)) return 2;
	dir = t;
	std::atexit(clean);
	int n = H::thorough ? 6000 : 400;
	for (int i = 0; i < n; ++i) {
		one<float>(i);
		one<double>(i);
	}
	return H::done();
}
