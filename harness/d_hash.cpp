// The string hash functions on exactly sized messages at every alignment.
#include "vh.h"
#include <new>
#include "templates/detachable_ordered_hash.h"
#include "templates/packed_ordered_hash.h"
#include "templates/cache.h"
using namespace CubicleSoft;
// The message ends exactly where its memory ends (ASan watches both sides); `off' moves the start.
struct Msg { uint8_t *m, *p; size_t n; Msg(const std::string &s, size_t off, bool term) { n = s.size(); m = new uint8_t[off + n + (term ? 1 : 0)]; p = m + off; memcpy(p, s.data(), n); if (term) p[n] = 0; } ~Msg() { delete[] m; } };
static std::string bytes(Rng &r, size_t n, int style)
{
	std::string s; for (size_t k = 0; k < n; k++) s += style == 0 ? (char)r(256) : style == 1 ? (char)('a' + r(3)) : style == 2 ? (char)0 : style == 3 ? (char)0xFF : (char)(r.chance(1, 2) ? 0x80 : 0x7F); return s;
}
static uint64_t key(Rng &r) { switch (r(6)) { case 0: return 0; case 1: return ~0ULL; case 2: return 5381; case 3: return 1ULL << r(64); default: return r.next(); } }
size_t vh_ncases(bool t) { return t ? 6000 : 700; }
void vh_case(size_t i, Rng &r)
{
	for (int s = 0; s < 24; s++)
	{
		size_t q = i * 24 + (size_t)s, n = q < 24 * 40 ? q % 40 : r.chance(1, 12) ? 40 + r(230) : r(34); std::string m = bytes(r, n, (int)r(5)); Msg a(m, r(8), false);
		uint64_t k1 = key(r), k2 = key(r); int f = q < 24 * 40 ? (int)(q / 40 % 5) : (int)r(6);
		// long messages
		if (i >= 40 && s == 0 && i % 8 == 0) { n = i < 48 + 8 * 5 ? 65536 + r(4500) : i % 16 ? 270 + r(2000) : 4090 + r(20); f = (int)(i / 8 % 6); m = bytes(r, n, (int)r(5)); a.~Msg(); new (&a) Msg(m, r(8), false); } vh_pend("hash %d of %zu bytes", f, n);
		switch (f)
		{
			case 0: case 1:
			{
				size_t c = 2, d = 4; if (r.chance(1, 4)) { c = r(5); d = r(9); }
				uint64_t h = f ? PackedOrderedHashUtil::GetSipHashKey(a.p, n, k1, k2, c, d) : OrderedHashUtil::GetSipHashKey(a.p, n, k1, k2, c, d);
				E e("sip"); e.i("f", f).b("m", m).w("k1", k1).w("k2", k2).z("c", c).z("d", d).w("h", h);
			}
			break;
			case 2: case 3:
			{
				uint64_t h = f == 3 ? PackedOrderedHashUtil::GetDJBX33XHashKey(a.p, n, (size_t)k1) : OrderedHashUtil::GetDJBX33XHashKey(a.p, n, (size_t)k1);
				E e("djb"); e.i("f", f).b("m", m).w("k1", k1).w("h", h);
			}
			break;
			case 4: { uint64_t h = CacheUtil::GetHashKey(a.p, n); E e("cache"); e.b("m", m).w("h", h); } break;
			default:
			{
				for (auto &x : m) { x &= 0x7F; if (!x) x = 1; } Msg t(m, r(8), true); uint64_t h = CacheUtil::GetHashKey((char *)t.p); E e("text"); e.b("m", m).w("h", h);
			}
		}
	}
}
