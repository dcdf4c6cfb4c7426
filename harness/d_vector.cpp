#include "vh.h"
#include "elem.h"
#include "templates/static_vector.h"
#include "templates/static_2d_array.h"
using namespace CubicleSoft;

struct V1 // vector
{
	StaticVector<Elem> *v;
	static const bool two = false;
	V1(size_t w, size_t) : v(new StaticVector<Elem>(w)) {}
	V1(const V1 &o) : v(new StaticVector<Elem>(*o.v)) {}
	~V1() { delete v; }
	void assign(V1 &o) { *v = *o.v; }
	size_t W() { return v->GetSize(); } size_t H() { return 1; }
	Elem &at(size_t x, size_t) { return (*v)[x]; }
	Elem &raw(size_t x, size_t) { return v->RawData()[x]; }
	bool eq(V1 &o) { return *v == *o.v; } bool ne(V1 &o) { return *v != *o.v; }
};
struct V2 // 2D array
{
	Static2DArray<Elem> *v;
	static const bool two = true;
	V2(size_t w, size_t h) : v(new Static2DArray<Elem>(w, h)) {}
	V2(const V2 &o) : v(new Static2DArray<Elem>(*o.v)) {}
	~V2() { delete v; }
	void assign(V2 &o) { *v = *o.v; }
	size_t W() { return v->GetWidth(); } size_t H() { return v->GetHeight(); }
	Elem &at(size_t x, size_t y) { return (*v)[y][x]; }
	Elem &raw(size_t x, size_t y) { return v->RawData()[y][x]; }
	bool eq(V2 &o) { return *v == *o.v; } bool ne(V2 &o) { return *v != *o.v; }
};
template <class V> struct Run
{
	V *vs[3];
	bool big; size_t huge;
	typedef std::vector<std::vector<int>> Runs;
	static void put(Runs &q, int val) { if (q.empty() || q.back()[0] != val) q.push_back({val, q.empty() ? 0 : q.back()[1]}); q.back()[1]++; }
	void snap(E &e)
	{
		if (huge)
		{
			std::vector<int> w, h; std::vector<Runs> c(3), raw(3);
			for (int i = 0; i < 3; i++) { w.push_back(vh_clampz(vs[i]->W())); h.push_back(vh_clampz(vs[i]->H())); for (size_t y = 0; y < vs[i]->H() && y < 70000; y++) for (size_t x = 0; x < vs[i]->W() && x < 70000 && c[i].size() < 500; x++) { put(c[i], vs[i]->at(x, y).get()); put(raw[i], vs[i]->raw(x, y).get()); } }
			e.a("w", w).a("h", h).aaa("cr", c).aaa("rr", raw); return;
		}
		std::vector<int> w, h; std::vector<std::vector<int>> c(3), raw(3);
		for (int i = 0; i < 3; i++) { w.push_back(vh_clampz(vs[i]->W())); h.push_back(vh_clampz(vs[i]->H())); for (size_t y = 0; y < vs[i]->H() && y < 50; y++) for (size_t x = 0; x < vs[i]->W() && x < 50; x++) { c[i].push_back(vs[i]->at(x, y).get()); raw[i].push_back(vs[i]->raw(x, y).get()); } }
		e.a("w", w).a("h", h).aa("c", c).aa("raw", raw);
	}
	void go(Rng &r, int steps)
	{
		size_t h0 = vh_heap();
		{
		for (int i = 0; i < 3; i++) vs[i] = new V(0, 1);
		for (int s = 0; s < steps; s++)
		{
			int i = (int)r(3), op = s < 3 ? 0 : (int)r(12); if (s < 3) i = s; bool fc = huge > 10000 && s == 3, fa = huge > 10000 && s == 4; if (fc || fa) { op = 5; i = fc ? 0 : 1; }
			vh_pend("op %d", op);
			if (op < 1 && huge)
			{
				size_t n = huge - r(3), a = 1 + r(5), nw = n, nh = 1; if (V::two) { switch (n > 10000 && r(3) ? 2 : r(3)) { case 0: nw = n / a; nh = a; break; case 1: nw = a; nh = n / a; break; default: nw = 1; while (nw * nw < n) nw++; nh = nw; } }
				Runs q; delete vs[i]; vs[i] = new V(nw, nh); size_t left = 0; int val = 1; for (size_t y = 0; y < nh; y++) for (size_t x = 0; x < nw; x++) { if (!left) { val = val % 3 + 1; left = 1 + r(r(2) ? 20 : n); } left--; vs[i]->at(x, y) = Elem(val); if (q.size() > 40) left = n; put(q, val); }
				E e("newr"); e.i("v", i + 1).z("nw", nw).z("nh", nh).aa("cells", q); snap(e);
			}
			else if (op < 1) { size_t nw = big ? (r.chance(1, 4) ? r(40) : r(14)) : r(5), nh = V::two ? big ? r(nw > 14 ? 5 : 14) : r(4) : 1; std::vector<int> cells; int m = r.range(1, 3); delete vs[i]; vs[i] = new V(nw, nh); for (size_t y = 0; y < nh; y++) for (size_t x = 0; x < nw; x++) { int q = r.range(1, m); vs[i]->at(x, y) = Elem(q); cells.push_back(q); } E e("new"); e.i("v", i + 1).z("nw", nw).z("nh", nh).a("cells", cells); snap(e); }
			else if (op < 5) { if (!vs[i]->W() || !vs[i]->H()) continue; size_t x = r(vs[i]->W()), y = r(vs[i]->H()); if ((big || huge) && r.chance(1, 2)) { if (r.chance(1, 2)) { x = vs[i]->W() - 1; y = vs[i]->H() - 1; } else if (r.chance(1, 2)) x = y = 0; } int q = r.range(1, 3); if (r.chance(1, 2)) vs[i]->at(x, y) = Elem(q); else vs[i]->raw(x, y) = Elem(q); E e("write"); e.i("v", i + 1).z("x", x).z("y", y).i("val", q); snap(e); }
			else if (op < 8) { int j = fc || fa ? i + 1 : (int)r(3); if (fc || (!fa && r.chance(1, 2) && i != j)) { delete vs[i]; vs[i] = new V(*vs[j]); } else vs[i]->assign(*vs[j]); E e("copy"); e.i("v", i + 1).i("src", j + 1); snap(e); }
			else
			{
				int j = (int)r(3);
				if (huge && i != j && r.chance(2, 3) && vs[j]->W() && vs[j]->H())
				{
					// a copy that differs in one place
					vs[i]->assign(*vs[j]); { E e("copy"); e.i("v", i + 1).i("src", j + 1); snap(e); }
					size_t x = vs[i]->W() - 1, y = vs[i]->H() - 1; if (r.chance(1, 3)) x = r(x + 1); if (r.chance(1, 3)) y = r(y + 1); int q = vs[i]->at(x, y).get() % 3 + 1;
					vs[i]->at(x, y) = Elem(q); E e("write"); e.i("v", i + 1).z("x", x).z("y", y).i("val", q); snap(e);
				}
				bool eq = vs[i]->eq(*vs[j]), ne = vs[i]->ne(*vs[j]); E e("cmp"); e.i("v", i + 1).i("src", j + 1).t("eq", eq).t("ne", ne); snap(e);
			}
		}
		vh_pend("destroy");
		for (int i = 0; i < 3; i++) delete vs[i];
		}
		size_t h1 = vh_heap();
		E e("end"); e.i("live", Elem::live).i("leak", (long long)h1 - (long long)h0);
	}
};
size_t vh_ncases(bool t) { return t ? 12000 : 3000; }
void vh_case(size_t i, Rng &r) { int steps = i % 3 == 0 ? 10 : 40; bool big = i % 7 == 3; size_t hg = i == 50 || i == 51 ? 66000 : i % 50 == 8 ? 5000 : i % 50 == 9 ? 1100 : i % 25 == 10 ? 300 : 0; if (hg) steps = hg > 10000 ? 9 : 14; if (i & 1) { Run<V1> R; R.big = big; R.huge = hg; R.go(r, steps); } else { Run<V2> R; R.big = big; R.huge = hg; R.go(r, steps); } }
