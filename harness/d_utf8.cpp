// UTF-8: MODE 0 conversion, MODE 1 parsing.
#include "vh.h"
#include "elem.h"
#include "utf8/utf8_util.h"
using CubicleSoft::UTF8::Util;
#ifndef MODE
#define MODE 0
#endif
typedef std::vector<long long> U;
static const int REP[] = { 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xCC, 0xDF, 0xE0, 0xE2, 0xE1, 0xED, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFC, 0xFF, 0x83, 0xB7, 0xBE, 0xCD, 0x00, 0xB8 };
static const long long PTS[] = { 0x41, 0x7A, 0x7F, 0x80, 0xFF, 0x2FF, 0x300, 0x301, 0x36F, 0x370, 0x7FF, 0x800, 0xFFF, 0x1000, 0x1DBF, 0x1DC0, 0x1DFF, 0x1E00, 0x20AC, 0x20CF, 0x20D0, 0x20FF, 0x2100, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFE1F, 0xFE20, 0xFE2F, 0xFE30, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1F600, 0x1FFFD, 0x1FFFE, 0xFFFFF, 0x10FFFD, 0x10FFFF, 0x110000, 0x1FFFFF, 0x7FFFFFFF };
static const size_t NP = sizeof PTS / sizeof *PTS;
static void enc(std::string &s, long long c) { if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xF0 | (c >> 18 & 7)); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } }
static long long pt(Rng &r) { return r.chance(1, 3) ? 'a' + (long long)r(26) : r.chance(1, 4) ? (long long)r(0x110000) : r.chance(1, 3) ? (r.chance(1, 2) ? 0x301 : 0x20D1) : PTS[r(NP)]; }
// long, mostly well-formed texts around sizes where counters may wrap
static std::string longtext(Rng &r, bool plain = false)
{
	static const size_t z[] = {255, 256, 257, 1000, 4095, 4096, 4097, 5000, 20000, 65535, 65536, 65537, 70000}; size_t n = z[r(3) ? r(13) : 9 + r(4)]; std::string s; int style = (int)r(3), odd = (int)r(4); if (plain) { style = odd = 0; n = 70000; }
	while (s.size() < n) { if (odd && r(n / 3 + 1) == 0) { odd--; s += (char)REP[r(28)]; } else if (style == 0 || r(3)) s += (char)('a' + r(26)); else { long long c = r(6) == 0 ? 0x301 : 0xC0 + (long long)r(style == 1 ? 0x200 : 0x8000); enc(s, c); } }
	if (r(2)) s.resize(n); return s;
}
static std::string text(Rng &r, bool zeros)
{
	std::string s; size_t n = r(r.chance(1, 40) ? 250 : r.chance(1, 3) ? 14 : 6);
	for (size_t k = 0; k < n; k++)
	{
		switch (r(8))
		{
			case 0: s += (char)REP[r(sizeof REP / sizeof *REP)]; break;
			case 1: { std::string t; enc(t, pt(r)); if (t.size() > 1) t.resize(1 + r(t.size())); s += t; } break;   // truncated
			case 2: { long long c = r(0x800); if (r.chance(1, 2)) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { c &= 127; s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } } break;    // overlong
			case 3: { s += (char)(0xC0 + r(64)); for (size_t j = 1 + r(5); j; j--) s += (char)(r(8) ? 0x80 + r(64) : r(256)); } break;      // any lead, any number of continuations
			default: enc(s, pt(r));
		}
	}
	if (!zeros) for (auto &c : s) if (!c) c = 'z';
	return s;
}
static U units(const void *p, size_t n, size_t w) { U o; for (size_t k = 0; k < n; k++) o.push_back(w == 1 ? ((const uint8_t *)p)[k] : w == 2 ? ((const uint16_t *)p)[k] : ((const uint32_t *)p)[k]); return o; }
static void *raw(const U &u, size_t w, bool term) { size_t n = u.size() + (term ? 1 : 0); size_t ww = w == 3 ? 4 : w; char *p = (char *)malloc(n * ww); for (size_t k = 0; k < n; k++) { long long v = k < u.size() ? u[k] : 0; if (w == 1) ((uint8_t *)p)[k] = (uint8_t)v; else if (w == 2) ((uint16_t *)p)[k] = (uint16_t)v; else ((uint32_t *)p)[k] = (uint32_t)v; } return p; }
static void to(const U &u, size_t w, long cap)
{
	void *p = raw(u, w, false); size_t last = (size_t)-1, size = cap < 0 ? 12345 : (size_t)cap; uint8_t *d = cap < 0 ? NULL : (uint8_t *)malloc((size_t)cap); static int turn; bool wl = ++turn % 5 != 0;
	vh_pend("ConvertToUTF8 width %zu units %zu cap %ld", w, u.size(), cap);
	Util::ConvertToUTF8(p, u.size(), w, d, size, wl ? &last : NULL);
	{ E e("to"); e.a("s", u).z("w", w).i("cap", cap).z("size", size).b("out", d, d ? std::min(size, (size_t)cap) : 0).i("last", !wl ? -2 : last == (size_t)-1 ? -1 : vh_clampz(last)); }
	free(p); free(d);
}
static void from(const std::string &s, size_t w, long cap, bool null)
{
	uint8_t *p = (uint8_t *)malloc(s.size()); memcpy(p, s.data(), s.size()); size_t size = (size_t)cap; size_t ww = w == 3 ? 4 : w; void *d = null ? NULL : malloc((size_t)cap * ww);
	vh_pend("ConvertFromUTF8 width %zu bytes %zu cap %ld", w, s.size(), cap);
	Util::ConvertFromUTF8(p, s.size(), d, size, w);
	{ E e("from"); e.b("s", s).z("w", w).i("cap", cap).t("null", null).z("size", size).a("out", null ? U() : units(d, std::min(size, (size_t)cap), w)); }
	free(p); free(d);
}
static long mm; static void *amalloc(void *m, size_t n) { mm = (long)(size_t)m; return malloc(n); }
static void toalloc(U u, size_t w, bool alt)
{
	for (auto &x : u) if (!(w == 1 ? (uint8_t)x : w == 2 ? (uint16_t)x : (uint32_t)x)) x = 'q';
	void *p = raw(u, w, true); size_t last = (size_t)-1; static int turn; vh_pend("ConvertToUTF8 alloc width %zu units %zu", w, u.size());
	char *o = alt ? Util::ConvertToUTF8(p, w, &last, (void *)7, amalloc) : ++turn % 3 ? Util::ConvertToUTF8(p, w, &last) : Util::ConvertToUTF8(p, w);
	{ E e("toalloc"); e.a("s", u).z("w", w).t("ret", o != NULL).b("out", o, o ? strlen(o) : 0).i("last", !alt && turn % 3 == 0 ? -2 : last == (size_t)-1 ? -1 : vh_clampz(last)); }
	if (alt) free(o); else delete[] (uint8_t *)o; free(p);
}
static void fromalloc(const std::string &s, size_t w, bool alt)
{
	char *p = strdup(s.c_str()); vh_pend("ConvertFromUTF8 alloc width %zu bytes %zu", w, s.size());
	void *o = alt ? Util::ConvertFromUTF8(p, w, (void *)7, amalloc) : Util::ConvertFromUTF8(p, w); U u;
	if (o) { size_t n = 0; while (w == 1 ? ((uint8_t *)o)[n] : w == 2 ? ((uint16_t *)o)[n] : ((uint32_t *)o)[n]) n++; u = units(o, n, w); }
	{ E e("fromalloc"); e.b("s", p, strlen(p)).z("w", w).t("ret", o != NULL).a("out", u); }
	if (alt) free(o); else if (w == 1) delete[] (uint8_t *)o; else if (w == 2) delete[] (uint16_t *)o; else delete[] (uint32_t *)o;
	free(p);
}
static void parse(const std::string &s0, Rng &r)
{
	std::string s(s0.c_str()); char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); vh_pend("parse %zu bytes", s.size());
	{ size_t n = Util::strlen(p); E e("strlen"); e.b("s", s).z("n", n); }
	{ std::vector<std::vector<long long>> it; size_t pos = 0, size; uint32_t cp, nx; bool hc; while (it.size() < s.size() + 5 && Util::NextCodePoint(cp, nx, p, pos, size, hc)) { std::vector<long long> q; q.push_back(cp); q.push_back(nx); q.push_back(hc); it.push_back(q); } E e("scan"); e.b("s", s).aa("it", it); }
	{ std::string o; size_t pos = 0, size; uint32_t nx; char c; while (o.size() < s.size() + 5 && Util::NextASCIICodePoint(c, nx, p, pos, size)) o += c; E e("ascii"); e.b("s", s).b("out", o); }
	for (int k = 0; k < 2; k++)
	{
		long long c = pt(r); if (!s.empty() && r.chance(3, 4)) { size_t pos = 0, size, hop = r(6); uint32_t cp, nx; bool hc; while (Util::NextCodePoint(cp, nx, p, pos, size, hc)) { c = cp; if (!hop--) break; } }
		bool allow = r.chance(1, 2); size_t pos = 99999; bool ret = allow ? Util::FindCodePoint(pos, (uint32_t)c, p, true) : Util::FindCodePoint(pos, (uint32_t)c, p); E e("find"); e.b("s", s).i("c", c).t("allow", allow).t("ret", ret).z("pos", pos);
	}
	free(p);
}
static const size_t NR = sizeof REP / sizeof *REP;
#if MODE == 0
size_t vh_ncases(bool t) { return 6 + NR + NP + (t ? 16000 : 2400); }
void vh_case(size_t i, Rng &r)
{
	if (i < 6) // every width against every single unit value near the interesting ones
	{
		size_t w = i % 3 == 0 ? 1 : i % 3 == 1 ? 2 : 4;
		for (size_t k = 0; k < NP; k++) { U u; if (i >= 3) u.push_back('x'); if (w == 1) { std::string s; enc(s, PTS[k]); for (unsigned char c : s) u.push_back(c); } else if (w == 2 && PTS[k] > 0xFFFF) { if (PTS[k] > 0x10FFFF) continue; u.push_back(0xD800 + ((PTS[k] - 0x10000) >> 10)); u.push_back(0xDC00 + ((PTS[k] - 0x10000) & 1023)); } else u.push_back(PTS[k]); for (long cap = -1; cap <= 6; cap++) to(u, w, cap); std::string s; if (i >= 3) s += 'x'; enc(s, PTS[k]); for (long cap = 0; cap <= 3; cap++) { from(s, w, cap, false); from(s, w, cap, true); } }
		return;
	}
	i -= 6;
	if (i < NR) { for (size_t b = 0; b < NR; b++) for (size_t c = 0; c < NR; c += (b % 3) + 1) { U u; u.push_back(REP[i]); u.push_back(REP[b]); if (c) u.push_back(REP[c]); to(u, 1, b % 2 ? -1 : 4); std::string s; for (auto x : u) s += (char)x; from(s, c % 2 ? 2 : 4, 4, false); } return; }
	i -= NR;
	if (i < NP) { for (size_t k = 0; k < NP; k++) { U u; u.push_back(PTS[i]); u.push_back(PTS[k]); u.push_back('b'); to(u, 4, 12); for (auto &x : u) x &= 0xFFFF; to(u, 2, 12); } return; }
	if (i % 50 == 10)
	{
		std::string s = longtext(r, i % 400 == 60 || i % 400 == 160); size_t w = (size_t)1 << r(3); U u; if (w == 1) for (unsigned char c : s) u.push_back(c); else { size_t n = s.size(); while (u.size() < n) { long long c = r(4) ? 'a' + (long long)r(26) : 0xC0 + (long long)r(0x8000); u.push_back(c); } }
		long cap = r(2) ? (long)(s.size() * 3 + r(10)) : r(2) ? -1 : (long)r(s.size() * 2);
		switch (i / 50 % 4) { case 0: to(u, w, cap); break; case 1: from(s, w, r(3) ? (long)s.size() + 1 : (long)r(s.size() + 3), r.chance(1, 3)); break; case 2: toalloc(u, w, r.chance(1, 3)); break; default: fromalloc(s, w, r.chance(1, 3)); }
		return;
	}
	for (int k = 0; k < 12; k++)
	{
		size_t w = r.chance(1, 30) ? 3 : (size_t)1 << r(3); std::string s = text(r, true); U u; long cap = r.chance(1, 4) ? -1 : (long)r(s.size() + 4);
		if (w == 1) for (unsigned char c : s) u.push_back(c); else { size_t n = r(8); for (size_t j = 0; j < n; j++) { long long c = r.chance(1, 15) ? 0 : pt(r); if (w == 2) { if (r.chance(1, 5)) u.push_back(r.chance(1, 2) ? 0xD800 + (long long)r(0x400) : 0xDC00 + (long long)r(0x400)); else if (c > 0xFFFF && c <= 0x10FFFF) { u.push_back(0xD800 + ((c - 0x10000) >> 10)); u.push_back(0xDC00 + ((c - 0x10000) & 1023)); } else u.push_back(c & 0xFFFF); } else u.push_back(c); } }
		switch (r(4)) { case 0: case 1: to(u, w, cap); from(s, w, (long)r(s.size() + 3), r.chance(1, 5)); break; case 2: toalloc(u, w, r.chance(1, 3)); break; default: fromalloc(s, w, r.chance(1, 3)); }
	}
}
#else
size_t vh_ncases(bool t) { return 1 + NR + NP + (t ? 16000 : 2000); }
void vh_case(size_t i, Rng &r)
{
	if (i == 0) { for (size_t k = 0; k < NP; k++) for (int d = -1; d <= 1; d++) { long long c = PTS[k] + d; bool ret = Util::IsCombiningCodePoint((uint32_t)c); E e("comb"); e.i("c", c).t("ret", ret); } parse("", r); return; }
	i--;
	if (i < NR) { for (size_t b = 0; b < NR; b++) for (size_t c = 0; c < NR; c += (b % 5) + 3) { std::string s; s += (char)REP[i]; s += (char)REP[b]; if (c) s += (char)REP[c]; parse(s, r); } return; }
	i -= NR;
	if (i < NP) { for (size_t k = 0; k < NP; k += 2) { std::string s; enc(s, PTS[i]); enc(s, PTS[k]); enc(s, 0x301); enc(s, 'c'); parse(s, r); } return; }
	if (i % 50 == 10) { parse(longtext(r), r); return; }
	for (int k = 0; k < 8; k++) parse(text(r, r.chance(1, 10)), r);
}
#endif
