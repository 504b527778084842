/*
Shared by all harnesses: records calls of the public API and their observable
results as NDJSON events for trace validation by TLC.
*/
#pragma once
#include <algorithm>
#include <cassert>
#include <cinttypes>
#include <cmath>
#include <complex>
#include <csignal>
#include <ctime>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <new>
#include <random>
#include <string>
#include <utility>
#include <vector>
#include <unistd.h>

/* Keeps clang 18 from turning a "static X *x = new X" into a global object
   that lacks the alignment of X (the code then faults on its vector moves). */
template <typename T> static inline T *opaque(T *p) { __asm__ volatile("" : "+r"(p) : : "memory"); return p; }

static char vt_ctx[4096] = "start";
static FILE *vt_out;
static void vt_crash(int sig)
{
	char buf[4400];
	int n = snprintf(buf, sizeof(buf), "CRASH signal=%d while: %s\n", sig, vt_ctx);
	if (write(1, buf, n) < 0) {}
	_exit(86);
}
/* no single step may take longer */
static int vt_step = 240;
static time_t vt_last;
static void vt_alive()
{
	time_t now = time(nullptr);
	if (now != vt_last) {
		vt_last = now;
		alarm(vt_step);
	}
}
/* what is being done right now, for the crash report */
static void doing(const char *fmt, ...)
{
	vt_alive();
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(vt_ctx, sizeof(vt_ctx), fmt, ap);
	va_end(ap);
}
static bool vt_thorough;
static uint64_t vt_seed;
static std::string vt_flavour;
struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t k = 0) : s(vt_seed * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull + 12345) {}
	uint64_t u64()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	/* uniform in lo..hi */
	int64_t in(int64_t lo, int64_t hi)
	{
		return lo + int64_t(u64() % uint64_t(hi - lo + 1));
	}
	bool one_in(int n) { return u64() % n == 0; }
	uint32_t operator()() { return uint32_t(u64()); }
};
static void vt_init(int argc, char **argv)
{
	if (argc < 2)
		exit(3);
	vt_out = fopen(argv[1], "w");
	if (!vt_out)
		exit(3);
	const char *s = getenv("VERIF_SEED");
	vt_seed = s ? strtoull(s, 0, 10) : 1;
	s = getenv("VERIF_TIER");
	vt_thorough = s && !strcmp(s, "thorough");
	s = getenv("VERIF_FLAVOUR");
	vt_flavour = s ? s : "";
	for (int sig : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM })
		signal(sig, vt_crash);
	s = getenv("VERIF_ALARM");
	if (s)
		vt_step = atoi(s);
	vt_alive();
}
static int vt_done()
{
	if (fclose(vt_out))
		exit(3);
	return 0;
}
static void vt_mismatch(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	printf("MISMATCH ");
	vprintf(fmt, ap);
	printf("\n");
	va_end(ap);
	fflush(stdout);
	_exit(87);
}
struct Ev
{
	std::string s;
	explicit Ev(const char *name) { vt_alive(); s = std::string("{\"e\":\"") + name + "\""; }
	Ev &i(const char *k, int64_t v)
	{
		if (v > 2147483647ll || v < -2147483647ll) {
			/* out of TLC's range: a value no specification accepts */
			v = 2147483647;
		}
		s += std::string(",\"") + k + "\":" + std::to_string(v);
		return *this;
	}
	Ev &str(const char *k, const std::string &v)
	{
		s += std::string(",\"") + k + "\":\"" + v + "\"";
		return *this;
	}
	Ev &b(const char *k, bool v)
	{
		s += std::string(",\"") + k + "\":" + (v ? "true" : "false");
		return *this;
	}
	/* bits little endian 16 bit limbs */
	static std::string limbs(uint64_t v, int bits)
	{
		std::string r = "[";
		for (int k = 0; k < bits; k += 16)
			r += (k ? "," : "") + std::to_string((v >> k) & 65535);
		return r + "]";
	}
	Ev &w(const char *k, uint64_t v, int bits)
	{
		s += std::string(",\"") + k + "\":" + limbs(v, bits);
		return *this;
	}
	template <typename V>
	Ev &ws(const char *k, const V &v, int bits)
	{
		s += std::string(",\"") + k + "\":[";
		bool f = false;
		for (auto x : v) {
			if (f) s += ",";
			f = true;
			s += limbs(uint64_t(x), bits);
		}
		s += "]";
		return *this;
	}
	template <typename V>
	Ev &a(const char *k, const V &v)
	{
		s += std::string(",\"") + k + "\":[";
		bool f = false;
		for (auto x : v) {
			if (f) s += ",";
			f = true;
			int64_t y = int64_t(x);
			if (y > 2147483647ll || y < -2147483647ll)
				y = 2147483647;
			s += std::to_string(y);
		}
		s += "]";
		return *this;
	}
	template <typename T>
	Ev &p(const char *k, const T *v, int n)
	{
		s += std::string(",\"") + k + "\":[";
		for (int j = 0; j < n; ++j) {
			if (j) s += ",";
			int64_t y = int64_t(v[j]);
			if (y > 2147483647ll || y < -2147483647ll)
				y = 2147483647;
			s += std::to_string(y);
		}
		s += "]";
		return *this;
	}
	void end()
	{
		s += "}\n";
		if (fwrite(s.data(), 1, s.size(), vt_out) != s.size())
			exit(3);
	}
};
/* memory handed out is never zero, so that what a constructor forgets shows */
static unsigned vt_fill = 0x6b;
static void *vt_filled(std::size_t n, std::size_t align)
{
	void *p = nullptr;
	if (posix_memalign(&p, align < 64 ? 64 : align, n ? n : 1)) exit(3);
	memset(p, (vt_fill = vt_fill * 1664525 + 1013904223) >> 24 | 1, n);
	return p;
}
void *operator new(std::size_t n) { return vt_filled(n, 64); }
void *operator new(std::size_t n, std::align_val_t a) { return vt_filled(n, std::size_t(a)); }
void *operator new[](std::size_t n) { return vt_filled(n, 64); }
void *operator new[](std::size_t n, std::align_val_t a) { return vt_filled(n, std::size_t(a)); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { free(p); }
/* a buffer between guard zones, to notice writes outside the promised range */
template <typename T>
struct Guarded
{
	static const int G = 64;
	std::vector<T> v;
	int n;
	T fill;
	Guarded(int n, T fill = T(0x55)) : v(n + 2 * G, fill), n(n), fill(fill) {}
	T *data() { return v.data() + G; }
	T &operator[](int i) { return v[G + i]; }
	bool intact() const
	{
		for (int i = 0; i < G; ++i)
			if (v[i] != fill || v[G + n + i] != fill)
				return false;
		return true;
	}
};
/* the NEON code paths, with harness/neon/arm_neon.h */
#ifdef VT_NEON
#define __ARM_NEON 1
#undef __SSE4_1__
#undef __AVX2__
#if VT_NEON == 64
#define __aarch64__ 1
#endif
#endif
