#include "vh.h"
#include "convert/convert_int.h"
using CubicleSoft::Convert::Int;
#ifndef MODE
#define MODE 0
#endif
static uint64_t value(Rng &r, size_t i)
{
	switch (r(8))
	{
		case 0: return r(2000);
		case 1: return (1ULL << r(64)) - 1 + r(3);
		case 2: { uint64_t p = 1; for (size_t k = r(20); k; k--) p *= 10; return p - 1 + r(3); }
		case 3: return ~0ULL - r(3);
		case 4: return (uint64_t)INT64_MAX - 1 + r(4);
		case 5: { uint64_t p = 1; size_t base = 2 + r(35); for (size_t k = r(13); k; k--) p *= base; return p - 1 + r(3); }
		case 6: { uint64_t u = 1ULL << (10 * r(7)); uint64_t m[] = { 1, 999, 1000, 1001, 1023, 1024, 1025, 1007, 15, 100, 500 }; return u * m[r(11)] + r(5) - 2; }
		default: return r.next() >> r(64);
	}
	(void)i;
}
// exact-size buffer; bytes before/after are watched by ASan
struct Out { char *p; size_t n; Out(size_t k) : p(new char[k]), n(k) { memset(p, 0x5A, k); } ~Out() { delete[] p; } };
size_t vh_ncases(bool t) { return t ? 16000 : 2400; }
void vh_case(size_t i, Rng &r)
{
	for (int s = 0; s < 20; s++)
	{
		uint64_t v = value(r, i); bool sg = r.chance(1, 2);
#if MODE == 1
		// every limit between two units, and its neighbours
		size_t q = i * 20 + (size_t)s; if (q < 42 * 12) { v = (q / 6 % 7 ? (1ULL << (10 * (q / 6 % 7))) / (q / 3 % 2 ? 1024 : 1) * (q / 3 % 2 ? 1000 : 1) : 1) - 1 + q % 3; }
#endif
#if MODE == 0
		size_t radix = r.chance(1, 2) ? 10 : (r.chance(1, 12) ? (r.chance(1, 2) ? r(2) : 37 + r(3)) : 2 + r(35)); char seps[] = { 0, 0, ',', '.', ' ' }; char sep = seps[r(5)];
		// buffer sizes around the needed length
		char t[200]; bool tok = sg ? Int::ToString(t, sizeof t, (int64_t)v, sep, radix) : Int::ToString(t, sizeof t, v, sep, radix);
		size_t need = tok ? strlen(t) + 1 : 4; long sz = r.chance(1, 4) ? (long)r(90) : (long)need + r.range(-3, 3); if (sz < 0) sz = 0;
		Out o((size_t)sz); vh_pend("ToString size %ld radix %zu", sz, radix);
		bool ok = sg ? Int::ToString(o.p, o.n, (int64_t)v, sep, radix) : Int::ToString(o.p, o.n, v, sep, radix);
		size_t len = 0; while (len < o.n && o.p[len]) len++;
		E e("int"); e.w("w", v).t("sg", sg).z("radix", radix).i("sep", (unsigned char)sep).z("size", (size_t)sz).t("ok", ok).b("txt", o.p, ok ? len : 0).t("guard", !ok || len < o.n);
#else
		size_t nf = q < 42 * 12 ? q / 42 % 4 : r.chance(1, 3) ? 0 : (r.chance(1, 2) ? 2 : r(20)); char seps[] = { 0, ',', '.' }, us[] = { ' ', 0, '_' }, dc[] = { '.', ',' }; char sep = seps[r(3)], usep = us[r(3)], dec = dc[r(2)]; const char *bu[] = { "bytes", "B", "", "octets" }; const char *bytes = bu[r(4)];
		char t[200]; bool tok = sg ? Int::ToFilesizeString(t, sizeof t, (int64_t)v, nf, sep, dec, usep, bytes) : Int::ToFilesizeString(t, sizeof t, v, nf, sep, dec, usep, bytes);
		size_t need = tok ? strlen(t) + 1 : 8; long sz = r.chance(1, 4) ? (long)r(50) : (long)need + r.range(-2, 4); if (sz < 0) sz = 0;
		Out o((size_t)sz); vh_pend("ToFilesizeString size %ld", sz);
		bool ok;
		if (nf == 2 && sep == 0 && dec == '.' && usep == ' ' && !strcmp(bytes, "bytes")) ok = sg ? Int::ToFilesizeString(o.p, o.n, (int64_t)v) : Int::ToFilesizeString(o.p, o.n, v);
		else ok = sg ? Int::ToFilesizeString(o.p, o.n, (int64_t)v, nf, sep, dec, usep, bytes) : Int::ToFilesizeString(o.p, o.n, v, nf, sep, dec, usep, bytes);
		size_t len = 0; while (len < o.n && o.p[len]) len++;
		bool neg = sg && (int64_t)v < 0; uint64_t m = neg ? 0 - v : v; std::vector<int> b; for (int k = 0; k < 7; k++) b.push_back((int)((m >> (10 * k)) & 1023));
		E e("size"); e.a("b", b).t("neg", neg).z("nf", nf).i("sep", (unsigned char)sep).i("dec", (unsigned char)dec).i("usep", (unsigned char)usep).b("bytes", bytes, strlen(bytes)).z("size", (size_t)sz).t("ok", ok).b("txt", o.p, ok ? len : 0).t("guard", !ok || len < o.n);
#endif
	}
}
