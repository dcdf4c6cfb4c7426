// Key universe for the hash drivers: integer and string keys, including pairs with
// identical hash values, same bytes as int and string, prefixes and embedded zeros.
#pragma once
struct Key
{
	bool str; int64_t n; std::string s;
	bool operator<(const Key &o) const { return str != o.str ? str < o.str : (str ? s < o.s : n < o.n); }
	bool operator==(const Key &o) const { return str == o.str && (str ? s == o.s : n == o.n); }
	std::vector<int> enc() const
	{
		std::vector<int> r; r.push_back(str);
		// long texts: kind 2, length and a digest of the bytes
		if (str && s.size() > 40) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; r[0] = 2; r.push_back((int)(s.size() & 0xFFFF)); r.push_back((int)(s.size() >> 16)); for (int k = 0; k < 4; k++) r.push_back((int)((h >> (16 * k)) & 0xFFFF)); }
		else if (str) for (unsigned char c : s) r.push_back(c);
		else for (int k = 0; k < 4; k++) r.push_back((int)(((uint64_t)n >> (16 * k)) & 0xFFFF));
		return r;
	}
};
static inline Key KI(int64_t n) { Key k; k.str = false; k.n = n; return k; }
static inline Key KS(const std::string &s) { Key k; k.str = true; k.n = 0; k.s = s; return k; }
// Two different 8 byte strings with the same DJBX33X value for the initial value `init'.
static inline void vh_collide(uint32_t init, std::string &a, std::string &b)
{
	uint32_t a1 = 0x64636261, b1 = 0x68676665, a2 = 0x64636262;
	uint32_t h1 = (init * 33) ^ a1, h2 = (init * 33) ^ a2;
	uint32_t b2 = b1 ^ (h1 * 33) ^ (h2 * 33);
	char t[8]; memcpy(t, &a1, 4); memcpy(t + 4, &b1, 4); a.assign(t, 8); memcpy(t, &a2, 4); memcpy(t + 4, &b2, 4); b.assign(t, 8);
}
static inline std::vector<Key> vh_universe(Rng &r, int style)
{
	std::vector<Key> u; std::string a, b; vh_collide(5381, a, b);
	if (style == 0) { int base = r.range(-3, 3); for (int i = 0; i < 8; i++) u.push_back(KI(base + i * r.range(1, 3))); }
	else if (style == 1) { u = { KS(a), KS(b), KI(0), KS(""), KS("a"), KS(std::string("a\0", 2)), KS("ab"), KI(-1) }; int64_t n; memcpy(&n, a.data(), 8); u.push_back(KI(n)); }
	else if (style == 2) { u = { KI(INT64_MIN), KI(INT64_MAX), KI(1), KI(1LL << 32), KS("key1"), KS("key2"), KS("longer key number one"), KS("longer key number two") }; }
	else if (style == 4)
	{
		size_t z[] = { 41, 63, 64, 65, 127, 128, 255, 256, 257, 300, 4096, 65535, 65536, 65537 }; size_t n = z[r(14)]; std::string t; for (size_t k = 0; k < n; k++) t += (char)r(256);
		u.push_back(KS(t)); u.push_back(KS(t.substr(0, n - 1))); u.push_back(KS(t + "x")); std::string q = t; q[n - 1] ^= 1; u.push_back(KS(q)); q = t; q[0] ^= 0x80; u.push_back(KS(q)); q = t; q[n / 2] ^= 4; u.push_back(KS(q));
		u.push_back(KS(t.substr(0, n & 0xFF))); u.push_back(KS(t.substr(0, n - n % 8))); u.push_back(KI((int64_t)n));
		// equal lengths and equal hash values, different in front or behind only
		std::string w = t.substr(0, n - n % 4), c, d; uint32_t h = 5381; for (size_t k = 0; k < w.size(); k += 4) { uint32_t x; memcpy(&x, w.data() + k, 4); h = (h * 33) ^ x; } vh_collide(h, c, d);
		u.push_back(KS(w + c)); u.push_back(KS(w + d)); u.push_back(KS(a + w)); u.push_back(KS(b + w));
	}
	else
	{
		int n = r.range(9, 30);
		for (int i = 0; i < n; i++) if (r.chance(1, 2)) u.push_back(KI((int64_t)(r.next() >> r(63)))); else { std::string s; int len = r.range(1, 10); for (int k = 0; k < len; k++) s += (char)r(256); u.push_back(KS(s)); }
	}
	std::vector<Key> v; for (auto &k : u) { bool dup = false; for (auto &q : v) if (q == k) dup = true; if (!dup) v.push_back(k); }
	return v;
}
