// FLAGS: -O2 -fsanitize=signed-integer-overflow,bounds -fno-sanitize-recover=all
// CORDIC angles of all (8 bits) or many (16 bits) coordinate pairs
#include "h.hh"
#include "cordic.hh"
#include <thread>
#include <mutex>
static std::mutex lock;
template <typename T>
static void one(int y, int x, double a, double c)
{
	const double full = 2.0 * (1 << (8 * sizeof(T) - 1));
	double t = std::atan2(double(y), double(x)) * (full / 2) / M_PI;
	T r = DSP::CORDIC<T>::atan2(T(y), T(x));
	double d = r - t;
	d -= full * std::nearbyint(d / full);
	double s = std::abs(x) + std::abs(y);
	if (!(std::fabs(d) <= a + c / s) || (sizeof(T) == 2 && !(std::fabs(d) <= 1 + 43200 / s))) {
		lock.lock();
		H::kase(true, "%d bits y=%d x=%d", int(8 * sizeof(T)), y, x);
		H::fail("angle %d instead of %.3f", int(r), t);
	}
}
int main(int argc, char **argv)
{
	H::init(argc, argv);
	for (int x = -128; x < 128; ++x) {
		H::kase(true, "8 bits x=%d, all y", x);
		for (int y = -128; y < 128; ++y)
			if (x || y) one<int8_t>(y, x, 1, 42);
	}
	if (H::thorough) {
		H::budget(3600);
		std::vector<std::thread> t;
		for (int k = 0; k < 6; ++k)
			t.emplace_back([k] {
				for (int x = -32768 + k; x < 32768; x += 6)
					for (int y = -32768; y < 32768; ++y)
						if (x || y) one<int16_t>(y, x, 2, 40000);
			});
		for (auto &i : t) i.join();
	}
	for (int x = -32768; x < 32768; ++x) {
		H::kase(true, "16 bits x=%d", x);
		{
			for (int k = 0; k < 160; ++k) {
				int y = k < 8 ? k - 4 : k < 16 ? x + k - 12 : k < 24 ? -x + k - 20 : k < 32 ? (k & 1 ? 32767 : -32768) : H::range(-32768, 32767);
				y = std::max(-32768, std::min(32767, y));
				if (x || y) one<int16_t>(y, x, 2, 40000);
			}
		}
	}
	return H::done();
}
