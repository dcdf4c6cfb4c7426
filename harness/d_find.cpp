// Drives FastFind* (MODE 0) or FastReplace* (MODE 1).
#include "vh.h"
#include "elem.h"
#include "templates/fast_find_replace.h"
using namespace CubicleSoft;
#ifndef MODE
#define MODE 0
#endif
static int g_mod = 0, g_step = 1, g_top = 255; static long g_alloc = 0;
struct Alloc
{
	static void *malloc(void *, size_t n) { g_alloc++; return new char[n]; }
	static void free(void *, void *p) { if (p) g_alloc--; delete[] (char *)p; }
	static void *realloc(void *, void *p, size_t n);
	size_t dummy;
};
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *p);
void *Alloc::realloc(void *, void *p, size_t n) { char *q = new char[n]; size_t o = p ? __sanitizer_get_allocated_size(p) : 0; memcpy(q, p, o < n ? o : n); if (!p) g_alloc++; delete[] (char *)p; return q; }
struct Obj { int pad, v; Obj() : pad(0), v(0) {} Obj(int x) : pad(x * 7), v(x) {} bool operator==(const Obj &o) const { return v == o.v; } bool operator!=(const Obj &o) const { return v != o.v; } explicit operator bool() const { return v != 0; } };
static int val(char c) { return (unsigned char)c; } static int val(int c) { return c; } static int val(unsigned short c) { return c; } static int val(const Obj &o) { return o.v; }
template <class T> static bool cmp(const T &a, const T &b) { int x = val(a), y = val(b); return g_mod ? x % g_mod == y % g_mod : x == y; }
template <class T> struct Cmp { typedef bool (*F)(const T &, const T &); };
struct Functor { template <class T> bool operator()(const T &a, const T &b) const { return cmp<T>(a, b); } };

// Uniform access to the four variants
template <class T, int K> struct V;
template <class T> struct V<T, 0> { typedef FastFind<T> F; typedef FastReplace<T> R; static bool um() { return sizeof(T) != sizeof(Obj); }
	template <class X> static void pat(X &f, const T *p, size_t n) { f.SetPattern(p, n); } template <class X> static const T *next(X &f, bool m) { return m ? f.FindNext() : f.FindNext(false); }
	static size_t all(T *&R_, size_t &n, const T *d, size_t dn, const T *p, size_t pn, const T *r, size_t rn, size_t lim, size_t g, size_t x, bool m) { return R::ReplaceAll(R_, n, d, dn, p, pn, r, rn, lim, g, x, m); }
	static size_t st(T *R_, size_t &n, const T *d, size_t dn, const T *p, size_t pn, const T *r, size_t rn, size_t lim, bool m) { return R::StaticReplaceAll(R_, n, d, dn, p, pn, r, rn, lim, 1024, 1, m); }
	static void rel(T *p) { delete[] (char *)p; } };
template <class T> struct V<T, 1> { typedef FastFindAlloc<T, Alloc> F; typedef FastReplaceAlloc<T, Alloc> R;
	template <class X> static void pat(X &f, const T *p, size_t n) { f.SetPattern(p, n, (Alloc *)NULL); } template <class X> static const T *next(X &f, bool m) { return m ? f.FindNext() : f.FindNext(false); }
	static size_t all(T *&R_, size_t &n, const T *d, size_t dn, const T *p, size_t pn, const T *r, size_t rn, size_t lim, size_t g, size_t x, bool m) { return R::ReplaceAll(R_, n, d, dn, p, pn, r, rn, NULL, lim, g, x, m); }
	static size_t st(T *R_, size_t &n, const T *d, size_t dn, const T *p, size_t pn, const T *r, size_t rn, size_t lim, bool m) { return R::StaticReplaceAll(R_, n, d, dn, p, pn, r, rn, NULL, lim, 1024, 1, m); }
	static void rel(T *p) { Alloc::free(NULL, p); } };
template <class T> struct V<T, 2> { typedef typename Cmp<T>::F C; typedef FastFindCompare<T, C> F; typedef FastReplaceCompare<T, C> R;
	template <class X> static void pat(X &f, const T *p, size_t n) { f.SetPattern(p, n, cmp<T>); } template <class X> static const T *next(X &f, bool) { return f.FindNext(cmp<T>); }
	static size_t all(T *&R_, size_t &n, const T *d, size_t dn, const T *p, size_t pn, const T *r, size_t rn, size_t lim, size_t g, size_t x, bool) { return R::ReplaceAll(R_, n, d, dn, p, pn, r, rn, cmp<T>, lim, g, x); }
	static size_t st(T *R_, size_t &n, const T *d, size_t dn, const T *p, size_t pn, const T *r, size_t rn, size_t lim, bool) { return R::StaticReplaceAll(R_, n, d, dn, p, pn, r, rn, cmp<T>, lim); }
	static void rel(T *p) { delete[] (char *)p; } };
template <class T> struct V<T, 3> { typedef FastFindAllocCompare<T, Alloc, Functor> F; typedef FastReplaceAllocCompare<T, Alloc, Functor> R;
	template <class X> static void pat(X &f, const T *p, size_t n) { f.SetPattern(p, n, (Alloc *)NULL, Functor()); } template <class X> static const T *next(X &f, bool) { return f.FindNext(Functor()); }
	static size_t all(T *&R_, size_t &n, const T *d, size_t dn, const T *p, size_t pn, const T *r, size_t rn, size_t lim, size_t g, size_t x, bool) { return R::ReplaceAll(R_, n, d, dn, p, pn, r, rn, NULL, Functor(), lim, g, x); }
	static size_t st(T *R_, size_t &n, const T *d, size_t dn, const T *p, size_t pn, const T *r, size_t rn, size_t lim, bool) { return R::StaticReplaceAll(R_, n, d, dn, p, pn, r, rn, NULL, Functor(), lim); }
	static void rel(T *p) { Alloc::free(NULL, p); } };

// exact-size heap copy, so that any access outside the sequence is caught
template <class T> struct Buf { T *p; size_t n; Buf(const std::vector<int> &v) : p((T *)new char[v.size() * sizeof(T)]), n(v.size()) { for (size_t i = 0; i < n; i++) p[i] = T(v[i]); } ~Buf() { delete[] (char *)p; } private: Buf(const Buf &); };

typedef std::vector<int> VI;
static VI rnd(Rng &r, size_t n, int alpha, int base) { VI v(n); int skew = (int)r(3); for (auto &x : v) x = base + (skew && r.chance(3, 4) ? 0 : (int)r((size_t)alpha) * g_step); return v; }
// a text in which the pattern (and near misses of it) occur often
static VI text(Rng &r, const VI &p, size_t n, int alpha, int base)
{
	VI v;
	while (v.size() < n)
	{
		int k = (int)r(6);
		if (k < 2 && !p.empty()) { VI q = p; if (g_mod && r.chance(1, 2)) for (auto &x : q) if (r.chance(1, 3) && x + g_mod <= g_top) x += g_mod; v.insert(v.end(), q.begin(), q.end()); }
		else if (k == 2 && !p.empty()) { VI q = p; q[r(q.size())] = base + (int)r((size_t)alpha) * g_step; v.insert(v.end(), q.begin(), q.end()); }
		else if (k == 3 && p.size() > 1) { v.insert(v.end(), p.begin(), p.begin() + (long)r(p.size())); }
		else { VI q = rnd(r, 1 + r(4), alpha, base); v.insert(v.end(), q.begin(), q.end()); }
	}
	if (v.size() > n && r.chance(1, 2)) v.resize(n);
	return v;
}
static size_t lsize(Rng &r) { static const size_t z[] = {255, 256, 257, 1000, 4095, 4096, 4097, 5000, 9000, 20000, 65535, 65536, 65537, 70000}; return z[r(r(3) ? 9 : 14)]; }
// long texts: stretches without the pattern and a few occurrences
static VI longtext(Rng &r, const VI &p, int alpha, int base)
{
	VI v; size_t n = lsize(r); int hits = (int)r(5), q = base; while (q == p[0] || (g_mod && q % g_mod == p[0] % g_mod)) q += g_step;
	while (v.size() < n) { size_t m = hits ? 1 + r(n) : n; while (m-- && v.size() < n) v.push_back(r(n / 6 + 1) ? q : base + (int)r((size_t)alpha) * g_step); if (hits) { hits--; v.insert(v.end(), p.begin(), p.end()); } }
	return v;
}
static size_t plen(Rng &r) { size_t k = r(20); if (k < 10) return r(6); if (k < 15) return 5 + r(6); return 9 + r(16); }

template <class T, int K> static void go(Rng &r, int i)
{
	size_t h0 = vh_heap();
	{
	int alpha = r.chance(1, 3) ? 2 : (r.chance(1, 2) ? 4 : 26), base = 97; g_mod = K >= 2 && r.chance(2, 3) ? 13 : 0; if (g_mod && alpha > 13) alpha = 13;
	// plain letters, binary values (zero, high bit) and values that differ in one byte of the element only
	g_step = 1; g_top = 120;
	if (i % 5 >= 2)
	{
		static const int cb[] = {0, 110, 229, 1}, ib[] = {0, -13, 1000000, 250};
		base = sizeof(T) == 1 ? cb[r(4)] : ib[r(4)]; if (base < 0 && (g_mod || sizeof(T) == 2)) base = 0; if (sizeof(T) == 2 && base > 60000) base = 60000;
		if (sizeof(T) > 1 && !g_mod && r(2)) g_step = sizeof(T) == 2 || r(2) ? 256 : 65536; g_top = sizeof(T) == 1 ? 255 : base + 26 + 13;
		if (sizeof(T) == 2 && g_step > 1) base = (int)r(2000);
	}
	bool um = std::is_same<T, Obj>::value ? false : r.chance(2, 3);
	bool bigcase = i % 29 == 5, lng = i % 43 == 7 || i % 43 == 20;
	std::vector<Buf<T> *> keep;
#if MODE == 0
	typename V<T, K>::F f;
	for (int s = 0; s < (bigcase ? 1 : 4); s++)
	{
		VI p = rnd(r, bigcase ? 1024 + r(8) : lng ? 4 + r(20) : plen(r), alpha, base); if (lng && s > 1) break; if (r.chance(1, 8) && p.size() > 3) { for (auto &x : p) x = base; p[r(p.size())] = base + g_step; }
		Buf<T> *pb = new Buf<T>(p); keep.push_back(pb);
		vh_pend("SetPattern %zu", p.size());
		V<T, K>::pat(f, pb->p, pb->n); { E e("pattern"); e.a("p", p); }
		if (r.chance(1, 8)) { const T *q = V<T, K>::next(f, um); E e("find"); e.i("m", g_mod).i("ret", q ? 999999 : 0); }
		int rounds = bigcase ? 1 : r.range(1, 2);
		while (rounds--)
		{
			if (lng && p.size() < 3) lng = false;
			VI d = lng ? longtext(r, p, alpha, base) : text(r, p, bigcase ? 1400 : r.chance(1, 15) ? r(400) : r(60), alpha, base);
			Buf<T> *db = new Buf<T>(d); keep.push_back(db);
			f.SetData(db->p, db->n); { E e("data"); e.a("d", d); }
			int stop = r.chance(1, 6) ? r.range(0, 3) : 1000, c = 0; bool again = r.chance(1, 4);
			while (c++ < stop)
			{
				vh_pend("FindNext"); const T *q = V<T, K>::next(f, um);
				{ E e("find"); e.i("m", g_mod).i("ret", q ? (q - db->p) + 1 : 0); }
				if (!q) { if (again) { again = false; continue; } break; }
				if (r.chance(1, 2)) { size_t x = r.chance(1, 4) ? r(3) : 0; const T *t = f.SkipMatch(x); E e("skip"); e.z("extra", x).i("ret", (t - db->p) + 1); }
			}
		}
	}
#else
	typedef typename V<T, K>::R R;
	if (i % 2)
	{
		// one-call forms
		for (int s = 0; s < 3; s++)
		{
			if (lng && s > 1) break; VI p = rnd(r, lng ? 4 + r(20) : plen(r), alpha, base), w = rnd(r, lng && r(3) ? lsize(r) : r.chance(1, 10) ? r(70) : r(8), alpha, base), d = lng ? longtext(r, p, alpha, base) : text(r, p, bigcase ? 500 : r(60), alpha, base);
			Buf<T> pb(p), db(d); size_t lim = r.chance(1, 2) ? (size_t)-1 : r(5), pn = p.size(), wn = w.size();
			// terminated forms: size -1 means up to the first zero element
			VI p0 = p, w0 = w; p0.push_back(0); w0.push_back(0); Buf<T> pz(p0), wz(w0), wb(w);
			bool z = r.chance(1, 3); for (int x : p) if (!x) z = false; for (int x : w) if (!x) z = false; const T *pp = z ? pz.p : pb.p, *wp = z ? wz.p : wb.p; if (z) { pn = wn = (size_t)-1; }
			size_t grow = r.chance(1, 2) ? r(4) : 1024, extra = 1 + r(2);
			if (r.chance(1, 2))
			{
				T *res = NULL; size_t n = 777; vh_pend("ReplaceAll"); size_t num = V<T, K>::all(res, n, db.p, db.n, pp, pn, wp, wn, lim, grow, extra, um);
				VI o; for (size_t x = 0; x < n && x < 600000; x++) o.push_back(val(res[x])); for (size_t x = 0; x < extra; x++) res[n + x] = T(1);
				V<T, K>::rel(res);
				E e("all"); e.a("d", d).a("p", p).a("r", w).i("lim", lim == (size_t)-1 ? -1 : (int)lim).i("m", g_mod).a("res", o).z("num", num);
			}
			else
			{
				size_t cap = r.chance(1, 2) ? d.size() + r(30) : r(20); size_t n = cap, num; VI o; bool inplace = w.size() <= p.size() && r.chance(1, 3);
				if (inplace) { cap = n = d.size(); Buf<T> ib(d); vh_pend("StaticReplaceAll in place"); num = V<T, K>::st(ib.p, n, ib.p, ib.n, pp, pn, wp, wn, lim, um); for (size_t x = 0; x < n && x < 600000; x++) o.push_back(val(ib.p[x])); }
				else { VI blank(cap, 1); Buf<T> ob(blank); vh_pend("StaticReplaceAll"); num = V<T, K>::st(ob.p, n, db.p, db.n, pp, pn, wp, wn, lim, um); for (size_t x = 0; x < n && x < 600000; x++) o.push_back(val(ob.p[x])); }
				E e("static"); e.a("d", d).a("p", p).a("r", w).i("lim", lim == (size_t)-1 ? -1 : (int)lim).i("m", g_mod).z("cap", cap).a("res", o).z("num", num);
			}
		}
	}
	else
	{
		R f; if (r.chance(1, 2)) f.SetGrowthSize(r(5)); if (r.chance(1, 3)) f.SetExtraAlloc(1 + r(3));
		for (int s = 0; s < 3; s++)
		{
			if (lng && s > 1) break; VI p = rnd(r, lng ? 4 + r(20) : plen(r), alpha, base); Buf<T> *pb = new Buf<T>(p); keep.push_back(pb);
			vh_pend("SetPattern"); V<T, K>::pat(f, pb->p, pb->n); { E e("pattern"); e.a("p", p); }
			VI d = lng ? longtext(r, p, alpha, base) : text(r, p, r(60), alpha, base); Buf<T> *db = new Buf<T>(d); keep.push_back(db);
			bool st = r.chance(1, 3); size_t cap = r.chance(1, 2) ? r(30) : d.size() + r(40); Buf<T> *ob = NULL;
			if (st) { ob = new Buf<T>(VI(cap, 1)); keep.push_back(ob); f.SetData(db->p, db->n, ob->p, cap); } else f.SetData(db->p, db->n);
			{ E e("data"); e.a("d", d).i("cap", st ? (int)cap : -1); }
			bool done = false; int stop = r.chance(1, 8) ? r.range(0, 2) : 1000;
			while (stop-- > 0)
			{
				vh_pend("FindNext"); const T *q = V<T, K>::next(f, um);
				{ E e("find"); e.i("m", g_mod).i("ret", q ? (q - db->p) + 1 : 0); }
				if (!q) { done = true; break; }
				if (r.chance(3, 4)) { VI w = rnd(r, lng && r(2) ? lsize(r) : r.chance(1, 12) ? r(70) : r(9), alpha, base); Buf<T> wb(w); size_t post = r.chance(1, 5) ? r(4) : 0; vh_pend("Replace"); f.Replace(wb.p, wb.n, post); E e("replace"); e.a("d", w).z("post", post); }
				if (r.chance(1, lng ? 12 : 4)) { T *o = f.GetData(); size_t n = f.GetDataSize(); VI ov; for (size_t x = 0; x < n && x < 600000; x++) ov.push_back(val(o[x])); E e("out"); e.a("res", ov); }
			}
			size_t n = f.GetDataSize(); VI ov; T *o = f.GetData();
			for (size_t x = 0; x < n && x < 600000; x++) ov.push_back(val(o[x]));
			if (!st && r.chance(2, 3)) { o = f.DetachData(); V<T, K>::rel(o); }
			E e("out"); e.a("res", ov);
		}
	}
#endif
	for (auto b : keep) delete b;
	}
	size_t h1 = vh_heap();
	E e("end"); e.i("leak", (long long)h1 - (long long)h0 + g_alloc);
}
size_t vh_ncases(bool t) { return t ? 12000 : 2500; }
void vh_case(size_t i, Rng &r)
{
	switch (i % 10)
	{
		case 0: case 1: go<char, 0>(r, (int)i / 10); break;
		case 2: go<int, 0>(r, (int)i / 10); break;
		case 3: go<Obj, 0>(r, (int)i / 10); break;
		case 4: go<char, 1>(r, (int)i / 10); break;
		case 5: go<unsigned short, 1>(r, (int)i / 10); break;
		case 6: go<char, 2>(r, (int)i / 10); break;
		case 7: go<int, 2>(r, (int)i / 10); break;
		case 8: go<char, 3>(r, (int)i / 10); break;
		default: go<Obj, 3>(r, (int)i / 10); break;
	}
}
