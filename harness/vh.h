// Common harness: deterministic case enumeration, crash containment, ndjson event log.
// A driver defines:  size_t vh_ncases(bool thorough);  void vh_case(size_t i, Rng &r);
// Usage: driver OUT.ndjson SEED quick|thorough [first count]
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t x) : s(x) {}
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	size_t operator()(size_t n) { return n ? (size_t)(next() % n) : 0; }
	int range(int a, int b) { return a + (int)((*this)((size_t)(b - a + 1))); }
	bool chance(int num, int den) { return (int)((*this)(den)) < num; }
};

static const size_t VH_BUF = 64u << 20;
struct VHShared { volatile size_t cur, committed, len; char why[256]; char pend[512]; char buf[1]; };
static VHShared *vh_sh;
static int vh_fd = -1;
static bool vh_thorough = false;
static uint64_t vh_seed = 1;
static int vh_timeout = 10;
static bool vh_evopen = false;

static inline void vh_raw(const char *s, size_t n)
{
	if (vh_sh->len + n + 64 > VH_BUF) { fprintf(stderr, "vh: trace buffer full\n"); _exit(97); }
	memcpy(vh_sh->buf + vh_sh->len, s, n); vh_sh->len = vh_sh->len + n;
}
static inline void vh_f(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static inline void vh_f(const char *fmt, ...)
{
	char t[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
	vh_raw(t, (size_t)n);
}
static inline int vh_clamp(long long v) { return v > 2147483647LL ? 2147483647 : (v < -2147483647LL ? -2147483647 : (int)v); }
static inline int vh_clampz(size_t v) { return v > 2147483647u ? 2147483647 : (int)v; }

// Describe the operation about to run (shown if it crashes or hangs).
static inline void vh_pend(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static inline void vh_pend(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(vh_sh->pend, sizeof vh_sh->pend, fmt, ap); va_end(ap); }

struct E  // one event; commits on destruction
{
	explicit E(const char *op) { vh_sh->len = vh_sh->committed; vh_f("%s{\"op\":\"%s\"", vh_sh->committed ? "," : "", op); }
	~E() { vh_raw("}", 1); vh_sh->committed = vh_sh->len; vh_sh->pend[0] = 0; }
	E &i(const char *k, long long v) { vh_f(",\"%s\":%d", k, vh_clamp(v)); return *this; }
	E &z(const char *k, size_t v) { vh_f(",\"%s\":%d", k, vh_clampz(v)); return *this; }
	E &t(const char *k, bool v) { vh_f(",\"%s\":%s", k, v ? "true" : "false"); return *this; }
	E &s(const char *k, const char *v) { vh_f(",\"%s\":\"%s\"", k, v); return *this; }
	E &b(const char *k, const void *p, size_t n)
	{
		vh_f(",\"%s\":[", k);
		for (size_t x = 0; x < n; x++)  vh_f(x ? ",%u" : "%u", (unsigned)((const unsigned char *)p)[x]);
		vh_raw("]", 1); return *this;
	}
	E &b(const char *k, const std::string &v) { return b(k, v.data(), v.size()); }
	template <class V> E &a(const char *k, const V &v)
	{
		vh_f(",\"%s\":[", k); bool f = true;
		for (auto &x : v) { vh_f(f ? "%d" : ",%d", vh_clamp((long long)x)); f = false; }
		vh_raw("]", 1); return *this;
	}
	template <class V> E &aa(const char *k, const V &v)
	{
		vh_f(",\"%s\":[", k); bool f = true;
		for (auto &x : v) { vh_raw(f ? "[" : ",[", f ? 1 : 2); f = false; bool g = true; for (auto &y : x) { vh_f(g ? "%d" : ",%d", vh_clamp((long long)y)); g = false; } vh_raw("]", 1); }
		vh_raw("]", 1); return *this;
	}
	template <class V> E &aaa(const char *k, const V &v)
	{
		vh_f(",\"%s\":[", k); bool e = true;
		for (auto &z : v)
		{
			vh_raw(e ? "[" : ",[", e ? 1 : 2); e = false; bool f = true;
			for (auto &x : z) { vh_raw(f ? "[" : ",[", f ? 1 : 2); f = false; bool g = true; for (auto &y : x) { vh_f(g ? "%d" : ",%d", vh_clamp((long long)y)); g = false; } vh_raw("]", 1); }
			vh_raw("]", 1);
		}
		vh_raw("]", 1); return *this;
	}
	// 64-bit value as four 16-bit limbs, least significant first
	E &w(const char *k, uint64_t v) { vh_f(",\"%s\":[%u,%u,%u,%u]", k, (unsigned)(v & 0xFFFF), (unsigned)((v >> 16) & 0xFFFF), (unsigned)((v >> 32) & 0xFFFF), (unsigned)(v >> 48)); return *this; }
};

size_t vh_ncases(bool thorough);
void vh_case(size_t i, Rng &r);

static void vh_emit_trace(size_t i, const char *crash)
{
	std::string o = "{\"case\":" + std::to_string(i) + ",\"ev\":[";
	o.append(vh_sh->buf, vh_sh->committed);
	if (crash)
	{
		std::string p; for (const char *c = vh_sh->pend; *c; c++) if (*c != '"' && *c != '\\' && (unsigned char)*c >= 32 && (unsigned char)*c < 127)  p += *c;
		o += std::string(vh_sh->committed ? "," : "") + "{\"op\":\"crash\",\"why\":\"" + crash + "\",\"pend\":\"" + p + "\"}";
	}
	o += "]}\n";
	size_t off = 0;
	while (off < o.size()) { ssize_t n = write(vh_fd, o.data() + off, o.size() - off); if (n <= 0) _exit(98); off += (size_t)n; }
}
// Start a new trace within the same case (several traces per case are allowed).
static inline void vh_flush_trace(size_t i) { if (vh_sh->committed) vh_emit_trace(i, NULL); vh_sh->committed = vh_sh->len = 0; }

#ifndef VH_NO_MAIN
int main(int argc, char **argv)
{
	if (argc < 4) return 96;
	vh_seed = strtoull(argv[2], NULL, 10); vh_thorough = !strcmp(argv[3], "thorough");
	vh_fd = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	if (vh_fd < 0) return 95;
	vh_sh = (VHShared *)mmap(NULL, VH_BUF + sizeof(VHShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	size_t n = vh_ncases(vh_thorough), first = 0, last = n; int part = 0, parts = 1;
	if (argc >= 6) { part = atoi(argv[4]); parts = atoi(argv[5]); }
	const char *only = getenv("VH_ONLY");
	if (only) { first = (size_t)strtoull(only, NULL, 10); last = first + 1; if (last > n) last = n; part = 0; parts = 1; }
	size_t i = first; int crashes = 0;
	while (i < last)
	{
		vh_sh->cur = i;
		fflush(NULL);
		pid_t p = fork();
		if (p == 0)
		{
			for (size_t c = i; c < last; c++)
			{
				if ((int)(c % (size_t)parts) != part) continue;
				vh_sh->cur = c; vh_sh->committed = vh_sh->len = 0; vh_sh->pend[0] = 0;
				Rng r0(vh_seed * 0x1234567ULL + c * 0xD1342543DE82EF95ULL + 77); Rng r(r0.next() ^ (r0.next() << 1));   // unrelated streams for the cases
				alarm((unsigned)vh_timeout);
				vh_case(c, r);
				alarm(0);
				vh_flush_trace(c);
			}
			fflush(NULL);
			_exit(0);
		}
		int st; while (waitpid(p, &st, 0) < 0) {}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 94) return 97;   // the sandbox, not the code under test
		char why[64];
		if (WIFSIGNALED(st)) snprintf(why, sizeof why, WTERMSIG(st) == SIGALRM ? "timeout" : "signal %d", WTERMSIG(st));
		else if (WEXITSTATUS(st) == 97) { snprintf(why, sizeof why, "runaway"); if (vh_sh->committed > (4u << 20)) vh_sh->committed = 0; }
		else snprintf(why, sizeof why, "exit %d", WEXITSTATUS(st));
		vh_emit_trace(vh_sh->cur, why);
		if (++crashes >= 6) break;
		i = vh_sh->cur + 1;
	}
	printf("cases=%zu crashes=%d\n", n, crashes);
	return 0;
}
#endif
