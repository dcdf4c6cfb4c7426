// JSON serializer: random call sequences into exactly sized buffers.
#include "vh.h"
#include <cmath>
#include "json/json_serializer.h"
using CubicleSoft::JSON::Serializer;
static bool vast; static size_t deep;
static std::string rstr(Rng &r, bool zeros)
{
	if (vast && r.chance(1, 4))
	{
		static const size_t z[] = {255, 256, 257, 300, 1000, 2047, 2048, 4095, 4096, 4097, 5000, 8192, 65535, 65536, 65537}; size_t n = z[r(r.chance(1, 3) ? 15 : 12)]; std::string s; int nesc = (int)r(5);
		while (s.size() < n) { size_t m = 1 + r(n / 3 + 2); if (m > n - s.size()) m = n - s.size(); s.append(m, (char)('a' + r(26))); if (nesc && s.size() < n) { nesc--; s += "\"\n\x01\\/"[r(5)]; } }
		return s;
	}
	std::string s; size_t n = r(r.chance(1, 6) ? 40 : 7); const char sp[] = "\"\\/\b\f\n\r\t\x01\x1f\x7f ";
	for (size_t k = 0; k < n; k++) s += r.chance(1, 3) ? sp[r(12)] : r.chance(1, 10) ? (char)(1 + r(255)) : (char)('a' + r(26));
	if (zeros && n && r.chance(1, 3)) s[r(n)] = 0;
	return s;
}
static uint64_t num(Rng &r) { switch (r(5)) { case 0: return r(1000); case 1: return (1ULL << r(64)) - r(2); case 2: return ~0ULL - r(300); case 3: return (uint64_t)INT64_MAX + r(3) - 1; default: return r.next() >> r(64); } }
static double dbl(Rng &r) { switch (r(9)) { case 0: return (double)r(1000) / 8; case 1: return -1.5e300 * (double)r(3); case 2: return 5e-324; case 3: return 0.1 * (double)r(50); case 4: return -0.0; case 5: return NAN; case 6: return r.chance(1, 2) ? INFINITY : -INFINITY; case 7: return 1.7976931348623157e308; default: { double d; uint64_t v = r.next(); memcpy(&d, &v, 8); return d; } } }
struct Sz { char *p; Sz(const std::string &s, bool term) { p = (char *)malloc(s.size() + (term ? 1 : 0)); memcpy(p, s.data(), s.size()); if (term) p[s.size()] = 0; } ~Sz() { free(p); } };
static std::vector<char *> bufs;
static uint8_t *buf; static size_t bsize;
static void newbuf(size_t n) { buf = (uint8_t *)malloc(n ? n : 1); if (!n) { free(buf); buf = (uint8_t *)malloc(0); } memset(buf, 0x5A, n); bufs.push_back((char *)buf); bsize = n; }
static bool written;
static void obs(E &e, Serializer &j)
{
	size_t p = j.GetCurrPos(); bool nul = true; if (p > bsize || (bsize && p >= bsize)) { nul = false; p = 0; } else if (written && bsize) nul = buf[p] == 0; else if (bsize == 0) nul = p == 0;
	if (bsize && j.GetBuffer() != buf) nul = false;
	e.b("out", buf, p).t("nul", nul).i("mode", (int)j.GetCurrMode()).t("keyreq", j.IsKeyRequired()).z("size", j.GetBufferSize());
}
size_t vh_ncases(bool t) { return t ? 8000 : 1400; }
void vh_case(size_t i, Rng &r)
{
	const char *KS[] = { ": ", ":", " : " }, *VS[] = { ", ", ",", ",\n\t" };
	bool esc = r.chance(1, 3); const char *ks = KS[r(3)], *vs = VS[r(3)]; size_t depth = r.chance(1, 4) ? 1 + r(4) : 12; bool def = r.chance(1, 4); if (def) { esc = false; ks = KS[0]; vs = VS[0]; depth = 512; } if (i % 100 == 58 && !def) depth = r.chance(1, 2) ? 1000 : 60 + r(240);
	Serializer *jp = def ? new Serializer : new Serializer(esc, ks, vs, depth); Serializer &j = *jp; written = false; bsize = 0; buf = NULL;
	{ E e("new"); e.t("esc", esc).b("ks", ks, strlen(ks)).b("vs", vs, strlen(vs)).z("depth", depth); obs(e, j); }
	bool small = i % 2; int steps = 45; vast = i % 100 == 57 || i % 100 == 36; deep = i % 100 == 58 ? 60 + r(250) : 0; if (vast) { small = false; steps = 9; } if (deep) { small = false; steps = 2 * (int)deep + 20; }
	if (r.chance(9, 10)) { newbuf(small ? r(30) : vast ? (r.chance(1, 2) ? 200000 : 200 + r(70000)) : deep ? 6000 + r(4000) : 2000); written = false; j.SetBuffer(buf, bsize); E e("buffer"); e.z("n", bsize); obs(e, j); }
	for (int s = 0; s < steps; s++)
	{
		bool want = j.IsKeyRequired(), hk = r.chance(1, 10) ? !want : want; std::string k = rstr(r, false); Sz ka(k, true); const char *kp = hk ? ka.p : NULL; int op = (int)r(34); bool ret;
		if (j.GetCurrMode() == Serializer::ModeRootNext && r.chance(1, 3)) op = 32;
		if (deep && !r.chance(1, 12)) op = s < (int)deep + 5 ? 16 : 22; if (vast && r.chance(1, 2)) op = 11;
		if (small && bsize > 0 && bsize - 1 - j.GetCurrPos() < 6 && r.chance(1, 3)) op = 30;
		vh_pend("op %d mode %d pos %zu size %zu", op, (int)j.GetCurrMode(), j.GetCurrPos(), bsize);
		if (op < 2) { ret = hk ? j.AppendNull(kp) : j.AppendNull(); if (ret) written = true; E e("null"); e.t("hk", hk).b("k", k).t("ret", ret); obs(e, j); }
		else if (op < 4) { bool v = r.chance(1, 2); ret = hk ? j.AppendBool(kp, v) : j.AppendBool(v); if (ret) written = true; E e("bool"); e.t("hk", hk).b("k", k).t("v", v).t("ret", ret); obs(e, j); }
		else if (op < 7) { uint64_t w = num(r); bool sg = r.chance(1, 2); ret = sg ? (hk ? j.AppendInt(kp, (int64_t)w) : j.AppendInt((int64_t)w)) : (hk ? j.AppendUInt(kp, w) : j.AppendUInt(w)); if (ret) written = true; E e("int"); e.t("hk", hk).b("k", k).w("w", w).t("sg", sg).t("ret", ret); obs(e, j); }
		else if (op < 10)
		{
			double d = dbl(r); size_t p = r.chance(1, 3) ? (hk ? 100 : 16) : r.chance(1, 3) ? 70 + r(60) : r(25); bool dflt = p == (hk ? 100u : 16u); char t[200]; snprintf(t, sizeof t, "%1.*g", (int)(p > 80 ? 80 : p), d); bool fin = std::isfinite(d);
			ret = hk ? (dflt ? j.AppendDouble(kp, d) : j.AppendDouble(kp, d, p)) : (dflt ? j.AppendDouble(d) : j.AppendDouble(d, p)); if (ret) written = true;
			E e("double"); e.t("hk", hk).b("k", k).t("finite", fin).b("txt", t, strlen(t)).t("ret", ret); obs(e, j);
		}
		else if (op < 15)
		{
			bool cnt = r.chance(1, 2); std::string v = rstr(r, cnt); if (bsize == 0 && j.GetCurrMode() == Serializer::ModeStr && v.empty()) continue; Sz va(v, !cnt);
			ret = cnt ? (hk ? j.AppendStr(kp, va.p, v.size()) : j.AppendStr(va.p, v.size())) : (hk ? j.AppendStr(kp, va.p) : j.AppendStr(va.p)); if (ret) written = true;
			E e("str"); e.t("hk", hk).b("k", k).b("s", v).t("ret", ret); obs(e, j);
		}
		else if (op == 15) { ret = r.chance(1, 2) ? j.AppendStr(kp, (const char *)NULL) : j.AppendStr(kp, (const char *)NULL, 5); E e("strnull"); e.t("ret", ret); obs(e, j); }
		else if (op < 22) { int kind = (int)r(deep && !r.chance(1, 30) ? 2 : 3); ret = kind == 0 ? j.StartObject(kp) : kind == 1 ? j.StartArray(kp) : j.StartStr(kp); if (ret) written = true; E e("open"); e.i("kind", kind).t("hk", hk).b("k", k).t("ret", ret); obs(e, j); }
		else if (op < 27)
		{
			int m = (int)j.GetCurrMode(), kind = r.chance(1, 5) ? (int)r(3) : m == 2 || m == 3 ? 0 : m == 6 ? 2 : 1; ret = kind == 0 ? j.EndObject() : kind == 1 ? j.EndArray() : j.EndStr(); if (ret) written = true; E e("close"); e.i("kind", kind).t("ret", ret); obs(e, j);
		}
		else if (op == 27) { if (!r.chance(1, 3)) continue; ret = j.Finish(); if (j.GetCurrPos()) written = true; E e("finish"); e.t("ret", ret); obs(e, j); }
		else if (op == 28) { std::string v = r.chance(1, 2) ? "\n" : rstr(r, true); if (bsize == 0 && v.empty()) continue; bool cnt = v.find('\0') != std::string::npos || r.chance(1, 2); Sz va(v, !cnt); ret = cnt ? j.Append(va.p, v.size()) : j.Append(va.p); if (ret) written = true; E e("raw"); e.b("s", v).t("ret", ret); obs(e, j); }
		else if (op == 29) { std::string v = rstr(r, true); bool cnt = r.chance(1, 2), add = r.chance(1, 2); if (!cnt) v = v.c_str(); Sz va(v, !cnt); size_t n = cnt ? j.CalculateStrSize(va.p, v.size(), add) : (add ? j.CalculateStrSize(va.p, true) : j.CalculateStrSize(va.p)); E e("strsize"); e.b("s", v).t("add", add).z("n", n); obs(e, j); }
		else if (op == 30) { newbuf(r.chance(1, 20) ? 0 : vast ? (r.chance(1, 2) ? 150000 : 4000 + r(5000)) : small ? 1 + r(60) : 500 + r(500)); written = false; j.SetBuffer(buf, bsize); E e("buffer"); e.z("n", bsize); obs(e, j); }
		else if (op == 31) { if (bsize && r.chance(1, 3)) { j.ResetPos(); written = false; E e("resetpos"); obs(e, j); } }
		else if (op == 32) { if (r.chance(1, 3)) { j.Reset(); written = false; E e("reset"); obs(e, j); } }
		else { esc = r.chance(1, 2); ks = KS[r(3)]; vs = VS[r(3)]; j.SetEscapeSlashes(esc); j.SetKeySplitter(ks); j.SetValSplitter(vs); E e("options"); e.t("esc", esc).b("ks", ks, strlen(ks)).b("vs", vs, strlen(vs)); obs(e, j); }
	}
	{ bool ret = j.Finish(); if (j.GetCurrPos()) written = true; E e("finish"); e.t("ret", ret); obs(e, j); }
	delete jp; for (auto p : bufs) free(p); bufs.clear();
}
