// Mixed variables: MODE 0 fixed buffers (StaticMixedVar), MODE 1 thread-local (TLS::MixedVar), MODE 2 UTF8MixedVar.
#include "vh.h"
#include "elem.h"
#ifndef MODE
#define MODE 0
#endif
#if MODE == 1
#include "sync/sync_tls.h"
typedef CubicleSoft::Sync::TLS::MixedVar MV;
static CubicleSoft::Sync::TLS *tls, *tls2;
#elif MODE == 2
#include "utf8/utf8_mixed_var.h"
#else
#include "templates/static_mixed_var.h"
#endif
using namespace CubicleSoft;

static std::string rbytes(Rng &r, size_t n, bool zeros) { std::string s; const char al[] = "aab/\\Z0-"; for (size_t k = 0; k < n; k++) s += r.chance(1, 12) ? (char)(zeros ? r(256) : 1 + r(255)) : al[r(8)]; return s; }
static uint64_t num(Rng &r) { switch (r(6)) { case 0: return r(1000); case 1: return (1ULL << r(64)) - r(2); case 2: return ~0ULL - r(300); case 3: return (uint64_t)INT64_MAX + r(3) - 1; default: return r.next() >> r(64); } }
static double dbl(Rng &r) { switch (r(6)) { case 0: return (double)r(1000) / 8; case 1: return -1.5e300 * (double)r(3); case 2: return 1e-310; case 3: return 0.1 * (double)r(50); case 4: return -0.0; default: { double d; uint64_t v = r.next(); memcpy(&d, &v, 8); return d != d ? 2.5 : d; } } }
// a buffer that ends exactly where the argument ends
struct Arg { char *p; size_t n; Arg(const std::string &s, bool term) { n = s.size(); p = new char[n + (term ? 1 : 0)]; memcpy(p, s.data(), n); if (term) p[n] = 0; } ~Arg() { delete[] p; } };

template <class V> struct Run
{
	V *v[3]; bool huge = false; size_t cap; size_t h00 = 0;
	void obs(E &e, int k)
	{
		V &x = *v[k]; int m = x.IsNone() ? 0 : x.IsBool() ? 1 : x.IsInt() ? 2 : x.IsUInt() ? 3 : x.IsDouble() ? 4 : x.IsStr() ? 5 : 9;
		if (x.GetBool() != (x.GetInt() != 0) || (uint64_t)x.GetInt() != x.GetUInt()) m = 8;
		double d = x.GetDouble(); uint64_t w; memcpy(&w, &d, 8);
		size_t n = x.GetSize(); char *s = x.GetStr(); bool nul = s ? true : n == 0 && m != 5;
		if (cap && n >= cap) { nul = false; n = 0; }
		if (n > 100000) { nul = false; n = 0; }
		if (nul && s) nul = s[n] == 0;
		e.i("v", k + 1).i("m", m).w("i", x.GetUInt()).w("d", w).b("s", s, s ? n : 0).t("nul", nul);
	}
	V *make();
	void extra(Rng &r, int k);
	void go(Rng &r, int steps, bool big)
	{
		size_t h0 = vh_heap();
		for (int k = 0; k < 3; k++) v[k] = make();
		for (int k = 0; k < 3; k++) { E e("new"); e.z("cap", cap); obs(e, k); }
		size_t maxlen = cap ? cap + 3 : (big ? (huge ? 22000 : 700) : 40);
		for (int st = 0; st < steps; st++)
		{
			if (r.chance(1, 6) && !huge) { int o = (int)r(3); E e("look"); obs(e, o); }
			int k = (int)r(3); V &x = *v[k]; size_t n = cap && r.chance(1, 3) ? (size_t)std::max(0, (int)(cap - 1) - (int)x.GetSize() + r.range(-2, 2)) : r(r.chance(1, 2) ? 6 : maxlen);
			if (cap > 60000) n = r(4) == 0 ? n : r(3) ? 65536 + r(500) : r(2000);
			if (!cap && x.GetSize() > (big ? (huge ? 70000u : 1500u) : 150u)) n = 0;
			bool data = r.chance(1, 2); std::string s = rbytes(r, n, data); Arg a(s, !data); uint64_t w = num(r); size_t rad = r.chance(1, 2) ? 10 : 2 + r(35); bool sg = r.chance(1, 2);
			int op = (int)r(MODE == 1 ? 24 : MODE == 2 ? 27 : 22); vh_pend("op %d len %zu size %zu", op, n, x.GetSize());
			switch (op)
			{
				case 0: { bool b = r.chance(1, 2); x.SetBool(b); E e("setbool"); e.t("b", b); obs(e, k); } break;
				case 1: { x.SetInt((int64_t)w); E e("setint"); e.w("w", w); obs(e, k); } break;
				case 2: { x.SetUInt(w); E e("setuint"); e.w("w", w); obs(e, k); } break;
				case 3: { double d = dbl(r); uint64_t q; memcpy(&q, &d, 8); x.SetDouble(d); E e("setdbl"); e.w("w", q); obs(e, k); } break;
				case 4: case 5: { if (data) x.SetData(a.p, n); else x.SetStr(a.p); E e("setstr"); e.b("a", s); obs(e, k); } break;
				case 6: case 7: case 8: { if (data) x.AppendData(a.p, n); else x.AppendStr(a.p); E e("append"); e.b("a", s); obs(e, k); } break;
				case 9: case 10: { if (data) x.PrependData(a.p, n); else x.PrependStr(a.p); E e("prepend"); e.b("a", s); obs(e, k); } break;
				case 11: { if (sg) { if (rad == 10) x.AppendInt((int64_t)w); else x.AppendInt((int64_t)w, rad); } else x.AppendUInt(w, rad); E e("appint"); e.w("w", w).t("sg", sg).z("r", rad); obs(e, k); } break;
				case 12: { if (sg) x.PrependInt((int64_t)w, rad); else { if (rad == 10) x.PrependUInt(w); else x.PrependUInt(w, rad); } E e("preint"); e.w("w", w).t("sg", sg).z("r", rad); obs(e, k); } break;
				case 13: { double d = dbl(r); size_t p = r.chance(1, 2) ? 16 : r(30); char t[100]; snprintf(t, sizeof t, "%1.*g", (int)p, d); if (p == 16) x.AppendDouble(d); else x.AppendDouble(d, p); E e("append"); e.b("a", t, strlen(t)); obs(e, k); } break;
				case 14: { double d = dbl(r); size_t p = r.chance(1, 2) ? 16 : r(30); char t[100]; snprintf(t, sizeof t, "%1.*g", (int)p, d); if (p == 16) x.PrependDouble(d); else x.PrependDouble(d, p); E e("prepend"); e.b("a", t, strlen(t)); obs(e, k); } break;
				case 15: { char c = (char)(r.chance(1, 5) ? r(256) : 'a' + r(2)); x.AppendChar(c); E e("append"); e.b("a", &c, 1); obs(e, k); } break;
				case 16:
				{
					// on an empty string there is nothing to look at, whatever lies in memory before it
					if (r.chance(1, 3)) { x.SetSize(0); E e("size"); e.z("n", 0); obs(e, k); }
					int m = 1 + (int)r(6);
					for (int j = 0; j < m; j++)
					{
						char c = x.GetSize() && r.chance(1, 3) ? x.GetStr()[x.GetSize() - 1] : (char)(r.chance(1, 3) ? r(256) : r.chance(1, 2) ? r(22) : 'a' + r(2)); x.AppendMissingChar(c); { E e("missing"); e.i("c", (unsigned char)c); obs(e, k); }
						if (j + 1 < m) { x.SetSize(0); E e("size"); e.z("n", 0); obs(e, k); }
					}
				}
				break;
				case 17: { char c = x.GetSize() && r.chance(1, 2) ? x.GetStr()[x.GetSize() - 1] : (char)('a' + r(2)); bool ret = x.RemoveTrailingChar(c); E e("trail"); e.i("c", (unsigned char)c).t("ret", ret); obs(e, k); } break;
				case 18: { size_t z = r.chance(1, 4) ? r(maxlen + 4) : (size_t)std::max(0, (int)x.GetSize() + r.range(-3, 1)); x.SetSize(z); E e("size"); e.z("n", z); obs(e, k); } break;
				case 19: { int j = (int)r(3); *v[k] = *v[j]; E e("assign"); e.i("from", j + 1); obs(e, k); } break;
				case 20: { int j = (int)r(3); if (j == k) break; V *t = new V(*v[j]); delete v[k]; v[k] = t; E e("assign"); e.i("from", j + 1); obs(e, k); } break;
				case 21:
				{
					size_t z = r(70);
					// small numbers, and buffers around the exact fit
					if (r.chance(1, 2)) { w = r.chance(1, 2) ? r(40) : (uint64_t)0 - r(40); }
					if (r.chance(2, 3)) { uint64_t u = sg && (int64_t)w < 0 ? (uint64_t)0 - w : w; z = sg && (int64_t)w < 0 ? 2 : 1; do { z++; u /= rad; } while (u); z = (size_t)std::max(0, (int)z + r.range(-2, 2)); }
					char *t = new char[z]; bool ok = sg ? V::IntToString(t, z, (int64_t)w, rad) : V::IntToString(t, z, w, rad); size_t len = 0; while (ok && len < z && t[len]) len++; { E e("itoa"); e.w("w", w).t("sg", sg).z("r", rad).z("n", z).t("ok", ok).b("a", t, ok ? len : 0); } delete[] t; } break;
				default: extra(r, k);
			}
		}
		for (int k = 0; k < 3; k++) { E e("look"); obs(e, k); }
		for (int k = 0; k < 3; k++) delete v[k];
		finish(h0);
	}
	void finish(size_t h0);
};
#if MODE == 1
template <> MV *Run<MV>::make() { return new MV(tls); }
template <> void Run<MV>::extra(Rng &r, int k)
{
	// a variable made without an allocator, or with another one, takes over the allocator of what it is given
	if (r.chance(1, 6))
	{
		int j = (int)r(3); if (j == k) return; delete v[k];
		switch (r(3)) { case 0: v[k] = new MV(); break; case 1: v[k] = new MV(tls2); break; default: v[k] = new MV(); v[k]->SetTLS(tls2); }
		if (v[k]->GetTLS() == tls2) { { E e("new"); e.z("cap", cap); obs(e, k); } if (r.chance(1, 2)) { v[k]->SetStr("other"); E f("setstr"); f.b("a", std::string("other")); obs(f, k); } if (r.chance(1, 2)) return; }
		*v[k] = *v[j]; E e("assign"); e.i("from", j + 1); obs(e, k); return;
	}
	MV &x = *v[k]; if (x.GetSize() > 2500) return; std::string p = rbytes(r, r(4), true), q = rbytes(r, r(7), true);
	if (x.GetSize() && r.chance(2, 3)) { size_t b = r(x.GetSize()), l = 1 + r(3); p.assign(x.GetStr() + b, std::min(l, x.GetSize() - b)); }
	bool str = p.find('\0') == std::string::npos && q.find('\0') == std::string::npos && r.chance(1, 2); if (x.GetSize() > 1000 && q.size() > p.size()) q.resize(p.size() + r(2)); if (x.GetSize() > 4000 && p.size() == 1) p += "aab";
	Arg a(p, str), b(q, str); vh_pend("replace %zu -> %zu in %zu", p.size(), q.size(), x.GetSize());
	size_t n = str ? x.ReplaceStr(a.p, b.p) : x.ReplaceData(a.p, a.n, b.p, b.n);
	E e("replace"); e.b("p", p).b("a", q).z("num", n); obs(e, k);
}
template <> void Run<MV>::finish(size_t) { size_t h0 = h00; tls->ThreadEnd(); delete tls; tls2->ThreadEnd(); delete tls2; size_t h1 = vh_heap(); E e("end"); e.i("leak", (long long)h1 - (long long)h0); }
size_t vh_ncases(bool t) { return t ? 6000 : 1000; }
void vh_case(size_t i, Rng &r) { size_t h0 = vh_heap(); bool big = i % 10 == 0; tls = new Sync::TLS; tls->ThreadInit(r.chance(1, 3) ? 3 + r(5) : 15); tls2 = new Sync::TLS; tls2->ThreadInit(r(12)); Run<MV> run; run.cap = 0; run.h00 = h0; if (i % 100 == 50) { run.huge = true; run.go(r, 8, true); } else run.go(r, big ? 12 : 50, big); }
#else
#if MODE == 2
#define MVT UTF8::UTF8MixedVar
#else
#define MVT StaticMixedVar
#endif
#define IMPL(N) template <> MVT<char[N]> *Run<MVT<char[N]>>::make() { return new MVT<char[N]>; } template <> void Run<MVT<char[N]>>::finish(size_t h0) { size_t h1 = vh_heap(); E e("end"); e.i("leak", (long long)h1 - (long long)h0); }
IMPL(1) IMPL(2) IMPL(8) IMPL(16) IMPL(70) IMPL(300) IMPL(1100) IMPL(5000) IMPL(66000)
#if MODE == 0
#define EX(N) template <> void Run<MVT<char[N]>>::extra(Rng &, int) {}
#else
template <class V> void u8(Run<V> &q, Rng &r, int k)
{
	V &x = *q.v[k]; std::vector<int> cps; std::vector<wchar_t> w; size_t n = r(r.chance(1, 2) ? 4 : 30);
	static const int pts[] = { 'a', 'b', 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0x10000, 0x1F600, 0x10FFFD, 0xD800, 0xDFFF, 0xFFFE, 0xFDD0, 0x110000, 0x301, 0x20D0, -1 };
	for (size_t j = 0; j < n; j++) { int c = r.chance(1, 2) ? 'a' + (int)r(26) : r.chance(1, 3) ? pts[r(20)] : pts[r(10)]; cps.push_back(c); w.push_back((wchar_t)c); }
	wchar_t *p = new wchar_t[n + 1]; for (size_t j = 0; j < n; j++) p[j] = w[j]; p[n] = 0; vh_pend("utf8 n %zu size %zu", n, x.GetSize());
	switch (r(4))
	{
		case 0: { x.SetUTF8(p); E e("setu8"); e.a("cp", cps); q.obs(e, k); } break;
		case 1: { wchar_t *t = new wchar_t[n]; memcpy(t, p, n * sizeof(wchar_t)); x.SetUTF8(t, n); delete[] t; E e("setu8"); e.a("cp", cps); q.obs(e, k); } break;
		case 2: { x.AppendUTF8(p); E e("appu8"); e.a("cp", cps); q.obs(e, k); } break;
		default: { size_t z = 1 + r(q.cap + 4), z0 = z; wchar_t *t = new wchar_t[z]; x.ConvertFromUTF8(t, z); std::vector<int> o; for (size_t j = 0; j < z && j < z0; j++) o.push_back((int)t[j]); delete[] t; E e("getu8"); e.z("n", z0).z("z", z).a("o", o); q.obs(e, k); } break;
	}
	delete[] p;
}
#define EX(N) template <> void Run<MVT<char[N]>>::extra(Rng &r, int k) { u8(*this, r, k); }
#endif
EX(1) EX(2) EX(8) EX(16) EX(70) EX(300) EX(1100) EX(5000) EX(66000)
template <int N> void one(Rng &r) { Run<MVT<char[N]>> run; run.cap = N; run.go(r, N > 10000 ? 8 : N > 2000 ? 14 : N > 1000 ? 25 : 50, false); }
size_t vh_ncases(bool t) { return t ? 8000 : 1500; }
void vh_case(size_t i, Rng &r)
{
	if (i % 50 == 33) { one<1100>(r); return; }
	if (MODE == 0 && i % 150 == 77) { one<5000>(r); return; }
	if (MODE == 0 && i % 300 == 60) { one<66000>(r); return; }
	switch (i % 6) { case 0: one<1>(r); break; case 1: one<2>(r); break; case 2: one<8>(r); break; case 3: one<16>(r); break; case 4: one<70>(r); break; default: one<300>(r); }
}
#endif
