// Drives Security::CSPRNG over scripted random devices (short, interrupted, failing reads).
#include "vh.h"
#include "shim_rng.h"
#undef open
#undef read
#undef close
#include "security/security_csprng.h"
using CubicleSoft::Security::CSPRNG;

// devices: 0 random, 1 arandom, 2 urandom
static bool avail[3]; static uint64_t pos[3]; static int opened, closed;
static std::vector<int> script; static size_t sp; static bool quiet; static bool aligned8;
static uint64_t calls_err; static std::vector<uint8_t> fixed; static size_t fp;   // fixed: what the device delivers first
static uint8_t srcbyte(int dev, uint64_t k) { uint64_t z = (k + 1) * 0x9E3779B97F4A7C15ULL + (uint64_t)(dev + 1) * 0x12345678901ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31; return (uint8_t)(z >> 11); }
extern "C" int vhr_open(const char *p, int, ...)
{
	int d = !strcmp(p, "/dev/random") ? 0 : !strcmp(p, "/dev/arandom") ? 1 : !strcmp(p, "/dev/urandom") ? 2 : -1;
	if (d < 0 || !avail[d]) { errno = ENOENT; return -1; }
	opened++; return 500 + d;
}
extern "C" int vhr_close(int fd) { if (fd < 500 || fd > 502) { errno = EBADF; return -1; } closed++; return 0; }
extern "C" ssize_t vhr_read(int fd, void *b, size_t n)
{
	if (fd < 500 || fd > 502) { errno = EBADF; return -1; }
	int d = fd - 500; ssize_t r; int s = sp < script.size() ? script[sp] : 0; sp++;
	static int same; if (sp > 100000) { _exit(90); } (void)same;
	// 0 full, k>0 at most k bytes, -1 EINTR, -2 EIO, -3 EOF, -4 EAGAIN
	if (s == -1) { errno = EINTR; r = -1; }
	else if (s == -2) { errno = EIO; r = -1; calls_err++; }
	else if (s == -4) { errno = EAGAIN; r = -1; calls_err++; }
	else if (s == -3) { r = 0; if (n) calls_err++; errno = EINTR; }
	else
	{
		r = (ssize_t)(s > 0 && (size_t)s < n ? (size_t)s : n);
		for (ssize_t k = 0; k < r; k++)  ((uint8_t *)b)[k] = fp < fixed.size() ? fixed[fp++] : srcbyte(d, pos[d]++);
		errno = EINTR;    // stale errno: only meaningful after -1
	}
	if (!quiet) { E e("read"); e.i("dev", d).z("n", n).i("r", s == -1 ? -1 : r < 0 ? -2 : (int)r); e.b("data", b, r > 0 ? (size_t)r : 0); }
	return r;
}

size_t vh_ncases(bool th) { return th ? 4800 : 1000; }
static void mkscript(Rng &r, size_t n)
{
	script.clear(); sp = 0; int style = r(6); int big = 1 + (int)r(700);
	for (size_t k = 0; k < n; k++)
	{
		if (style == 0) script.push_back(0);
		else if (style == 1) script.push_back(r.chance(1, 3) ? -1 : r.range(1, 5));
		else if (style == 2) script.push_back(r.chance(1, 6) ? -2 - (int)r(3) : r.chance(1, 3) ? -1 : r.range(1, 9));
		else if (style == 3) script.push_back(r.chance(1, 2) ? -1 : 0);
		else if (style == 5) script.push_back(r.chance(1, 9) ? -1 : r.chance(1, 40) ? -2 - (int)r(3) : 1 + (int)r((size_t)big));
		else script.push_back(r.chance(1, 12) ? -2 - (int)r(3) : 1 + (int)r(40));
	}
}
void vh_case(size_t i, Rng &r)
{
	bool safe = r(2); for (int d = 0; d < 3; d++) { avail[d] = !r.chance(1, 4); pos[d] = r(100000); }
	opened = closed = 0; script.clear(); sp = 0; quiet = false;
	{
		CSPRNG c(safe);
		{ E e("new"); e.t("safe", safe); e.a("avail", std::vector<int>{avail[0], avail[1], avail[2]}); }
		bool dev = safe ? avail[0] : (avail[1] || avail[2]);
		for (int k = 0; k < 14; k++)
		{
			mkscript(r, 200);
			if (r(3))
			{
				size_t n = r.chance(1, 8) ? 0 : r.chance(1, 5) ? 1 + r(300) : r.chance(1, 12) ? 200 + r(2500) : 1 + r(24);
				if (i % 50 == 17 && k == 3) { static const size_t z[] = {4095, 4096, 4097, 5000, 8192, 20000, 65535, 65536, 65537, 70000}; n = z[r(10)]; for (auto &x : script) if (x > 0) x = r.chance(1, 2) ? 0 : 256 + (int)r(n); if (r(2)) script.clear(); }
				uint8_t *p = (uint8_t *)malloc(n ? n : 1); memset(p, 0xA5, n ? n : 1);
				{ E e("bytes"); e.z("n", n); }
				vh_pend("bytes %zu", n);
				bool ok = c.GetBytes(p, n);
				{ E e("bytesret"); e.t("ret", ok).b("out", p, ok ? n : 0); }
				free(p);
			}
			else
			{
				uint64_t a = r.next() >> r(64), b = r.next() >> r(64);
				if (r.chance(1, 6)) b = a; if (r.chance(1, 8)) a = 0; if (r.chance(1, 8)) b = ~0ULL; if (r.chance(1, 4)) b = a + r(20);
				uint64_t v = r.next(); quiet = true; uint64_t e0 = calls_err;
				vh_pend("int %llu %llu", (unsigned long long)a, (unsigned long long)b);
				bool ok = c.GetInteger(v, a, b); quiet = false;
				{ E e("int"); e.w("a", a).w("b", b).t("err", calls_err != e0 || !dev).t("ret", ok).w("v", v); }
			}
		}
		if (dev)
		{
			// distribution over a small range, and over buckets of a wide one
			script.clear(); sp = 0; quiet = true;
			size_t k = 1 + r(40); uint64_t lo = r(2) ? r(1000) : r.next(); if (lo + k < lo) lo = ~0ULL - k + 1; if (r.chance(1, 10)) lo = ~0ULL - k + 1;
			std::vector<int> cnt(k, 0); bool inside = true; int N = 100 * (int)k;
			bool rev = r(2); for (int t = 0; t < N; t++) { uint64_t v = 0; sp = 0; if (!(rev ? c.GetInteger(v, lo + k - 1, lo) : c.GetInteger(v, lo, lo + k - 1)) || v - lo >= k) { inside = false; break; } cnt[(size_t)(v - lo)]++; }
			{ E e("draws"); e.i("n", N).t("inside", inside).a("cnt", cnt); }
			uint64_t span = (r.next() | (1ULL << 63)) >> r(56); lo = r.next(); if (lo + span < lo) lo = ~0ULL - span; if (r.chance(1, 6)) { lo = 0; span = ~0ULL; }
			std::vector<int> c2(8, 0); inside = true; N = 800; uint64_t w = span / 8 + 1;
			if (span >= 4096) { for (int t = 0; t < N; t++) { uint64_t v = 0; sp = 0; if (!c.GetInteger(v, lo, lo + span) || v - lo > span) { inside = false; break; } c2[(size_t)((v - lo) / w)]++; }
			{ E e("draws"); e.i("n", N).t("inside", inside).a("cnt", c2); } }
			// both ends of a range can occur: devices that begin with bytes that should lead there
			for (int t = 0; t < 4; t++)
			{
				uint64_t sp2 = r.next() >> r(64); if (r(3) == 0) sp2 = (~0ULL) >> r(64); uint64_t a = r.next(); if (r(4) == 0) a = 0; if (a + sp2 < a) a = ~0ULL - sp2; uint64_t b = a + sp2; bool lo1 = false, hi1 = false, in1 = true, sw = r(2);
				for (int q = 0; q < 6; q++)
				{
					fixed.assign(8, q == 0 ? 0 : 0xFF); fp = 0; script.clear(); sp = 0; uint64_t x = q == 2 || q == 3 ? sp2 : q == 4 ? b : a; if (q >= 2) for (int j = 0; j < 8; j++) fixed[(size_t)(q == 3 ? 7 - j : j)] = (uint8_t)(x >> (8 * j));
					uint64_t v = 0; if (!(sw ? c.GetInteger(v, b, a) : c.GetInteger(v, a, b)) || v < a || v > b) in1 = false;
					if (v == a) lo1 = true; if (v == b) hi1 = true;
				}
				fixed.clear(); fp = 0; { E e("ends"); e.w("a", a).w("b", b).t("inside", in1).t("lo", lo1).t("hi", hi1); }
			}
			quiet = false;
		}
	}
	{ E e("end"); e.i("opened", opened).i("closed", closed); }
}
