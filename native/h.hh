// Shared support of the native stand-ins: seeded cases, current-case description,
// failure reporting (exit 3), watchdog on CPU time (exit 4), abort capture.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <limits>
#include <string>
#include <vector>
#include <complex>
#include <csignal>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace H {
static uint64_t s_ = 1;
static bool thorough = false;
static long cases = 0, nontrivial = 0;
static char cur[4096] = "start";
static int nsamples = 0;
static int sampleskip = 0;

inline uint64_t u64() { uint64_t z = (s_ += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline int below(int n) { return int(u64() % uint64_t(n)); }
inline int range(int a, int b) { return a + int(u64() % uint64_t(int64_t(b) - a + 1)); }
inline double uni() { return double(u64() >> 11) * 0x1p-53; }
inline double sym() { return 2 * uni() - 1; }
inline bool coin() { return u64() & 1; }

[[noreturn]] inline void fail(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	printf("FAIL in case {%s}: ", cur);
	vprintf(fmt, ap);
	printf("\n");
	va_end(ap);
	fflush(stdout);
	_exit(3);
}
inline void on_abort(int sig)
{
	printf("FAIL in case {%s}: signal %d (assertion or trap)\n", cur, sig);
	fflush(stdout);
	_exit(3);
}
inline void on_timer(int)
{
	printf("HANG in case {%s}: no result within the CPU budget\n", cur);
	fflush(stdout);
	_exit(4);
}
inline void budget(int sec)
{
	struct itimerval it;
	memset(&it, 0, sizeof(it));
	it.it_value.tv_sec = sec;
	setitimer(ITIMER_VIRTUAL, &it, 0);
}
inline void kase(bool interesting, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(cur, sizeof(cur), fmt, ap);
	va_end(ap);
	++cases;
	if (interesting) {
		++nontrivial;
		if (nsamples < 5 && ++sampleskip >= 1 << nsamples) { ++nsamples; sampleskip = 0; printf("SAMPLE %.300s\n", cur); }
	}
	if ((cases & 1023) == 1)
		budget(120);
}
inline void init(int argc, char **argv)
{
	if (argc > 1)
		s_ = strtoull(argv[1], 0, 10) * 0x2545F4914F6CDD1Dull + 12345;
	thorough = argc > 2 && !strcmp(argv[2], "thorough");
	signal(SIGABRT, on_abort);
	signal(SIGFPE, on_abort);
	signal(SIGVTALRM, on_timer);
	budget(120);
}
inline int done()
{
	budget(0);
	printf("STATS cases=%ld nontrivial=%ld\n", cases, nontrivial);
	fflush(stdout);
	return 0;
}
// true when f() ends in abort() (assertion), run in a child process
template <typename F> bool aborts(F f)
{
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		signal(SIGABRT, SIG_DFL);
		if (!freopen("/dev/null", "w", stderr)) _exit(0);
		f();
		_exit(0);
	}
	int s = 0;
	waitpid(p, &s, 0);
	return WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT;
}
inline std::string str(const char *fmt, ...)
{
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	return b;
}
template <typename T> std::string list(const T *a, int n, int max = 24)
{
	std::string r;
	for (int i = 0; i < n && i < max; ++i) r += str(i ? ",%.17g" : "%.17g", double(a[i]));
	if (n > max) r += str(",...(%d)", n);
	return r;
}
}
