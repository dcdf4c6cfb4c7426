#include "vh.h"
#include "elem.h"
#include "templates/cache.h"
using namespace CubicleSoft;

template <class C> struct Run
{
	C *cs[2]; bool big;
	void snap(E &e)
	{
		std::vector<std::vector<int>> u(2); std::vector<int> n;
		for (int i = 0; i < 2; i++) { n.push_back(vh_clampz(cs[i]->GetSize())); for (size_t k = 0; k < cs[i]->GetSize() && k < 70000; k++) if (cs[i]->RawData()[k].Used && u[i].size() < 200) u[i].push_back((int)k); }
		e.aa("used", u).a("size", n);
	}
	bool copyop(int i, int j, Rng &r);
	size_t hashkey(Rng &r, std::vector<std::string> &names, int &key)
	{
		key = r.range(0, 5); std::string &s = names[(size_t)key];
		switch (r(4))
		{
			case 0: return CacheUtil::GetHashKey((char *)s.c_str());
			case 1: return CacheUtil::GetHashKey((uint8_t *)s.data(), s.size());
			case 2: return r(6);
			default: return (size_t)r.next();
		}
	}
	void go(Rng &r, int steps)
	{
		size_t h0 = vh_heap();
		{
		std::vector<std::string> names; for (int i = 0; i < 6; i++) { std::string s; int n = r.range(0, 11); for (int k = 0; k < n; k++) s += (char)('a' + r(26)); names.push_back(s); }
		size_t bz[] = { 97, 257, 383, 1531, 6143, 65537 }, sz[] = { 1, 2, 3, 5, 11, 23 };
		cs[0] = new C(1); cs[1] = new C(1);
		for (int i = 0; i < 2; i++) { size_t n = big ? bz[r(6)] : sz[r(6)]; delete cs[i]; cs[i] = new C(n); E e("new"); e.i("c", i + 1).z("n", n); snap(e); }
		for (int s = 0; s < steps; s++)
		{
			int i = (int)r(2), op = (int)r(20), x = r.range(1, 99), key; size_t h = hashkey(r, names, key);
			vh_pend("op %d", op);
			if (op < 6) { cs[i]->Insert(h, Elem(key), Elem(x)); E e("insert"); e.i("c", i + 1).w("hash", h).i("key", key).i("x", x); snap(e); }
			else if (op < 9) { bool ok = cs[i]->Remove(h, Elem(key)); E e("remove"); e.i("c", i + 1).w("hash", h).i("key", key).t("ret", ok); snap(e); }
			else if (op < 14) { Elem v(-5); bool ok = cs[i]->Find(v, h, Elem(key)); E e("find"); e.i("c", i + 1).w("hash", h).i("key", key).t("ret", ok).i("x", v.get()); snap(e); }
			else if (op < 16) { bool ok = cs[i]->Exists(h, Elem(key)); E e("exists"); e.i("c", i + 1).w("hash", h).i("key", key).t("ret", ok); snap(e); }
			else if (op == 16) { if (r.chance(1, 3)) { cs[i]->Empty(); E e("empty"); e.i("c", i + 1); snap(e); } }
			else if (op < 19) { int j = (int)r(2); if (copyop(i, j, r)) { E e("copy"); e.i("c", i + 1).i("src", j + 1); snap(e); } }
			else
			{
				// same bytes at different addresses; the buffers end where the string ends
				std::string &s1 = names[(size_t)key]; char *p = new char[s1.size() + 1], *q = new char[s1.size() + 4]; memcpy(p, s1.c_str(), s1.size() + 1); memcpy(q + 3, s1.c_str(), s1.size() + 1);
				uint8_t *p2 = new uint8_t[s1.size() + 1], *q2 = new uint8_t[s1.size() + 8]; memcpy(p2, s1.data(), s1.size()); memcpy(q2 + 8, s1.data(), s1.size());
				uint8_t *p3 = new uint8_t[s1.size()]; memcpy(p3, s1.data(), s1.size());
				size_t a = CacheUtil::GetHashKey(p), b = CacheUtil::GetHashKey(q + 3);
				{ E e("hash"); e.w("a", a).w("b", b); snap(e); }
				a = CacheUtil::GetHashKey(p3, s1.size()); b = CacheUtil::GetHashKey(q2 + 8, s1.size());
				{ E e("hash"); e.w("a", a).w("b", b); snap(e); }
				delete[] p; delete[] q; delete[] p2; delete[] q2; delete[] p3;
			}
		}
		delete cs[0]; delete cs[1];
		}
		size_t h1 = vh_heap();
		E e("end"); e.i("live", Elem::live).i("leak", (long long)h1 - (long long)h0);
	}
};
typedef Cache<Elem, Elem> C1; typedef CacheNoCopy<Elem, Elem> C2;
template <> bool Run<C1>::copyop(int i, int j, Rng &r) { if (r.chance(1, 2) && i != j) { delete cs[i]; cs[i] = new C1(*cs[j]); } else *cs[i] = *cs[j]; return true; }
template <> bool Run<C2>::copyop(int, int, Rng &) { return false; }

size_t vh_ncases(bool t) { return t ? 12000 : 2400; }
void vh_case(size_t i, Rng &r)
{
	int steps = i % 3 == 0 ? 15 : 50;
	if (i % 4 == 3) { Run<C2> R; R.big = i % 10 == 7; R.go(r, steps); } else { Run<C1> R; R.big = i % 10 == 7; R.go(r, steps); }
}
