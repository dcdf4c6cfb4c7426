#include "vh.h"
#include "elem.h"
#include "templates/packed_ordered_hash.h"
#include "keys.h"
using namespace CubicleSoft;
typedef PackedOrderedHashNode<Elem> N;

template <class L> struct Run
{
	L *hs[2]; std::vector<Key> U; uint64_t k1, k2;
	std::vector<int> nkey(N *n) { Key k; if (n->GetStrKey()) k = KS(std::string(n->GetStrKey(), n->GetStrLen())); else k = KI(n->GetIntKey()); return k.enc(); }
	template <class X> void nest(const char *k, X &v)
	{
		vh_f(",\"%s\":[", k);
		for (size_t i = 0; i < v.size(); i++) { vh_raw(i ? ",[" : "[", i ? 2 : 1); for (size_t j = 0; j < v[i].size(); j++) { vh_raw(j ? ",[" : "[", j ? 2 : 1); for (size_t m = 0; m < v[i][j].size(); m++) vh_f(m ? ",%d" : "%d", v[i][j][m]); vh_raw("]", 1); } vh_raw("]", 1); }
		vh_raw("]", 1);
	}
	void snap(E &e)
	{
		std::vector<std::vector<int>> v(2), p(2), bp(2), fv(2), fp(2), gp(2), np(2), pp(2), tn(2); std::vector<std::vector<std::vector<int>>> k(2); std::vector<int> n, nx;
		for (int i = 0; i < 2; i++)
		{
			L &h = *hs[i]; size_t pos = h.GetNextPos(); int c = 0; N *x;
			while ((x = h.Next(pos)) && c++ < 6000) { k[i].push_back(nkey(x)); v[i].push_back(x->Value.get()); p[i].push_back(vh_clampz(pos)); }
			pos = h.GetNextPos(); c = 0;
			while ((x = h.Prev(pos)) && c++ < 6000) bp[i].push_back(vh_clampz(h.GetPos(x)));
			// a walk that came to its end starts over, in either direction
			for (int w = 0; w < 4; w++) { pos = h.GetNextPos(); c = 0; while ((w & 1 ? h.Prev(pos) : h.Next(pos)) && c++ < 6000) {} x = w & 2 ? h.Prev(pos) : h.Next(pos); tn[i].push_back(x ? vh_clampz(h.GetPos(x)) : -1); }
			n.push_back(vh_clampz(h.GetSize())); nx.push_back(vh_clampz(h.GetNextPos()));
			for (auto &u : U) { size_t q = 0; x = u.str ? h.Find(u.s.data(), u.s.size(), q) : h.Find(u.n, q); N *y = u.str ? h.Find(u.s.data(), u.s.size()) : h.Find(u.n); if (x != y) q = (size_t)-1; fv[i].push_back(x ? x->Value.get() : -1); fp[i].push_back(x ? vh_clampz(q) : -1); }
			for (size_t q = 0; q < h.GetNextPos() + 2 && q < 64; q++) { x = h.Get(q); gp[i].push_back(x ? vh_clampz(h.GetPos(x)) : -1); size_t z = q; x = h.Next(z); np[i].push_back(!x ? -1 : h.GetPos(x) == z ? vh_clampz(z) : -2); z = q; x = h.Prev(z); pp[i].push_back(!x ? -1 : h.GetPos(x) == z ? vh_clampz(z) : -2); }
		}
		e.aa("v", v).aa("p", p).aa("bp", bp).aa("fv", fv).aa("fp", fp).aa("gp", gp).aa("np", np).aa("pp", pp).aa("tn", tn).a("n", n).a("nxt", nx).i("live", Elem::live); nest("k", k);
	}
	bool copyop(int i, int j, Rng &r);
	void go(Rng &r, int steps, int style, int nuni)
	{
		size_t h0 = vh_heap();
		{
		U = vh_universe(r, style); if (nuni) while ((int)U.size() < nuni) { U.push_back(KI(1000 + (int)U.size())); }
		k1 = r.next(); k2 = r.next();
		size_t sz[] = { 0, 1, 2, 3, 8, 16 };
		hs[0] = r.chance(1, 5) ? new L : new L(sz[r(6)]); hs[1] = new L(sz[r(6)], k1, k2);
		{ std::vector<std::vector<int>> u; for (auto &k : U) u.push_back(k.enc()); E e("init"); e.aa("uni", u); }
		size_t delbias = r(3);
		for (int s = 0; s < steps; s++)
		{
			int i = (int)r(2), op = (int)r(16), x = r.range(1, 9); const Key &k = U[r(U.size())];
			if (delbias == 2 && r.chance(1, 4)) op = 8;
			if (delbias == 0 && op >= 8 && op < 11 && r.chance(1, 2)) op = 0;
			vh_pend("op %d hash %d", op, i + 1);
			if (op < 6) { N *n; if (r.chance(1, 3)) { n = k.str ? hs[i]->Set(k.s.data(), k.s.size()) : hs[i]->Set(k.n); n->Value = Elem(x); } else n = k.str ? hs[i]->Set(k.s.data(), k.s.size(), Elem(x)) : hs[i]->Set(k.n, Elem(x)); E e("set"); e.i("h", i + 1).a("key", k.enc()).i("x", x); snap(e); }
			else if (op < 8) { if (k.str) hs[i]->Set(k.s.data(), k.s.size()); else hs[i]->Set(k.n); E e("touch"); e.i("h", i + 1).a("key", k.enc()); snap(e); }
			else if (op < 11) { bool ok; int w = (int)r(2); if (w) ok = k.str ? hs[i]->Unset(k.s.data(), k.s.size()) : hs[i]->Unset(k.n); else { N *n = k.str ? hs[i]->Find(k.s.data(), k.s.size()) : hs[i]->Find(k.n); ok = hs[i]->Unset(n); } E e("unset"); e.i("h", i + 1).a("key", k.enc()).t("ret", ok); snap(e); }
			else if (op == 11) { if (r.chance(1, 2) || hs[i]->ShouldOptimize()) { hs[i]->Optimize(); E e("optimize"); e.i("h", i + 1); snap(e); } }
			else if (op == 12) { hs[i]->ResizeHash((size_t)r.range(0, 40)); E e("resize"); e.i("h", i + 1); snap(e); }
			else if (op == 13) { hs[i]->AutoResizeHash(); E e("resize"); e.i("h", i + 1); snap(e); }
			else { int j = (int)r(2); if (copyop(i, j, r)) { E e("copy"); e.i("h", i + 1).i("src", j + 1); snap(e); } }
		}
		vh_pend("destroy");
		delete hs[0]; delete hs[1];
		}
		std::vector<Key>().swap(U);
		size_t h1 = vh_heap();
		E e("end"); e.i("live", Elem::live).i("leak", (long long)h1 - (long long)h0);
	}
};
template <> bool Run<PackedOrderedHash<Elem>>::copyop(int i, int j, Rng &r)
{
	if (r.chance(1, 2) && i != j) { delete hs[i]; hs[i] = new PackedOrderedHash<Elem>(*hs[j]); } else *hs[i] = *hs[j];
	return true;
}
template <> bool Run<PackedOrderedHashNoCopy<Elem>>::copyop(int, int, Rng &) { return false; }

// Many keys at once: growth and shrinking through the table sizes with full observations.
template <class L> static void many(Rng &r)
{
	Run<L> R; R.k1 = r.next(); R.k2 = r.next(); size_t h0 = vh_heap();
	{
	R.hs[0] = r.chance(1, 3) ? new L(r(5)) : new L(r(5), r.next()); R.hs[1] = new L(1, R.k1, R.k2);
	for (int q = 0; q < 6; q++) R.U.push_back(q & 1 ? KI(5000 + q) : KS("keep" + std::to_string(q))); for (int q = 0; q < 3; q++) R.U.push_back(KI(100000 + (int)r(700)));
	{ std::vector<std::vector<int>> u; for (auto &k : R.U) u.push_back(k.enc()); E e("init"); e.aa("uni", u); }
	int base = 100000;
	for (int s = 0; s < 10; s++)
	{
		int i = (int)r(2), op = s == 0 ? 0 : (int)r(8), x = r.range(1, 9); const Key &k = R.U[r(6)]; L *h = R.hs[i]; vh_pend("many %d", op);
		if (op < 3)
		{
			int cnt = (int)(r.chance(1, 3) ? 1 + r(900) : 1 + r(100)); bool ok = true; for (int q = 0; q < cnt; q++) { N *n = h->Set((int64_t)(base + q), Elem(x)); if (!n || n->GetIntKey() != base + q) ok = false; }
			for (int q = 0; q < cnt; q++) { N *n = h->Find((int64_t)(base + q)); if (!n || n->GetIntKey() != base + q || n->Value.get() != x) ok = false; }
			E e("setmany"); e.i("h", i + 1).i("base", base).i("cnt", cnt).i("x", x).i("ok", ok); R.snap(e); base += cnt;
		}
		else if (op < 5)
		{	// remove every q-th, forwards or backwards, while walking
			size_t q = 1 + r(4), c = 0, pos = h->GetNextPos(); bool back = r.chance(1, 2); N *n; bool ok = true; while ((n = back ? h->Prev(pos) : h->Next(pos)) && c < 6000) if (c++ % q == 0) { if (!h->Unset(n)) ok = false; }
			E e("thin"); e.i("h", i + 1).z("q", q).i("back", back).i("ok", ok); R.snap(e);
		}
		else if (op == 5) { size_t z = (size_t)1 << r(11); h->ResizeHash(z + r(3) - 1); E e("resize"); e.i("h", i + 1); R.snap(e); }
		else if (op == 6) { h->Optimize(); E e("optimize"); e.i("h", i + 1); R.snap(e); }
		else { if (k.str) h->Set(k.s.data(), k.s.size(), Elem(x)); else h->Set(k.n, Elem(x)); E e("set"); e.i("h", i + 1).a("key", k.enc()).i("x", x); R.snap(e); }
		if (r.chance(1, 6)) { int j = 1 - i; if (R.copyop(i, j, r)) { E e("copy"); e.i("h", i + 1).i("src", j + 1); R.snap(e); } }
	}
	delete R.hs[0]; delete R.hs[1];
	}
	std::vector<Key>().swap(R.U);
	size_t h1 = vh_heap();
	E e("end"); e.i("live", Elem::live).i("leak", (long long)h1 - (long long)h0);
}

// Growth through all table sizes, with shrinking (tables of 512 and more may shrink), checked at the end by full lookups.
template <class L> static void big(Rng &r)
{
	Run<L> R; R.k1 = r.next(); R.k2 = r.next(); size_t h0 = vh_heap();
	{
	R.hs[0] = new L(4); R.hs[1] = new L(1, R.k1, R.k2);
	int keep = 12; for (int q = 0; q < keep; q++) { R.U.push_back(q & 1 ? KI(5000 + q) : KS("keep" + std::to_string(q))); }
	{ std::vector<std::vector<int>> u; for (auto &k : R.U) u.push_back(k.enc()); E e("init"); e.aa("uni", u); }
	for (int round = 0; round < 4; round++)
	{
		// fill with temporary keys between the kept ones, then remove the temporaries again: only the kept entries may remain
		int i = (int)r(2); const Key &k = R.U[r(R.U.size())]; int n = r.range(50, 1400); int x = r.range(1, 9);
		vh_pend("big round %d n %d", round, n);
		for (int q = 0; q < n; q++) { if (r.chance(1, 2)) R.hs[i]->Set((int64_t)(100000 + q), Elem(3)); else R.hs[i]->Set((int64_t)(100000 + q))->Value = Elem(3); }
		if (k.str) R.hs[i]->Set(k.s.data(), k.s.size(), Elem(x)); else R.hs[i]->Set(k.n, Elem(x));
		for (int q = 0; q < n; q++) if (!R.hs[i]->Unset((int64_t)(100000 + (q * 7) % n)) && n % 7) break;
		if (n % 7 == 0) for (int q = 0; q < n; q++) R.hs[i]->Unset((int64_t)(100000 + q));
		R.hs[i]->ResizeHash(r.chance(1, 2) ? 512 : 1024); R.hs[i]->Optimize();
		E e("set"); e.i("h", i + 1).a("key", k.enc()).i("x", x); R.snap(e);
	}
	delete R.hs[0]; delete R.hs[1];
	}
	std::vector<Key>().swap(R.U);
	size_t h1 = vh_heap();
	E e("end"); e.i("live", Elem::live).i("leak", (long long)h1 - (long long)h0);
}

size_t vh_ncases(bool t) { return t ? 10000 : 2400; }
void vh_case(size_t i, Rng &r)
{
	if (i % 20 == 19) { if (i % 40 == 19) big<PackedOrderedHash<Elem>>(r); else big<PackedOrderedHashNoCopy<Elem>>(r); return; }
	if (i % 20 == 9) { if (i % 40 == 9) many<PackedOrderedHash<Elem>>(r); else many<PackedOrderedHashNoCopy<Elem>>(r); return; }
	int steps = i % 3 == 0 ? 12 : 45;
	if (i % 5 == 4) { Run<PackedOrderedHashNoCopy<Elem>> R; R.go(r, steps, i % 11 == 3 ? 4 : (int)(i % 4), 0); } else { Run<PackedOrderedHash<Elem>> R; R.go(r, steps, i % 11 == 3 ? 4 : (int)(i % 4), i % 7 == 0 ? 24 : 0); }
}
