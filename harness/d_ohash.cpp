#include "vh.h"
#include "elem.h"
#include "templates/detachable_ordered_hash.h"
#include "keys.h"
using namespace CubicleSoft;
typedef OrderedHashNode<Elem> N;

template <class L> struct Run
{
	L *hs[3]; int cls[3]; std::map<N *, int> id; std::vector<N *> det; std::map<N *, int> ncls; int nid = 1; std::vector<Key> U; uint64_t k1, k2;
	int ID(N *n) { if (!n) return 0; auto it = id.find(n); return it == id.end() ? -1 : it->second; }
	void adopt(N *n) { if (n && !id.count(n)) id[n] = nid++; }
	std::vector<int> nkey(N *n) { Key k; if (n->GetStrKey()) k = KS(std::string(n->GetStrKey(), (size_t)n->GetIntKey())); else k = KI(n->GetIntKey()); return k.enc(); }
	N *find(int h, const Key &k, Rng &r)
	{
		// three ways to look a key up
		if (r.chance(1, 3)) { N t; if (k.str) { t.SetStrKey(k.s.data(), k.s.size(), true); if (k.s.empty() && !t.GetStrKey()) return hs[h]->Find(k.s.data(), 0); } else t.SetIntKey(k.n, true); return hs[h]->Find(&t); }
		return k.str ? hs[h]->Find(k.s.data(), k.s.size()) : hs[h]->Find(k.n);
	}
	template <class X> void nest(const char *k, X &v)
	{
		vh_f(",\"%s\":[", k);
		for (size_t i = 0; i < v.size(); i++) { vh_raw(i ? ",[" : "[", i ? 2 : 1); for (size_t j = 0; j < v[i].size(); j++) { vh_raw(j ? ",[" : "[", j ? 2 : 1); for (size_t m = 0; m < v[i][j].size(); m++) vh_f(m ? ",%d" : "%d", v[i][j][m]); vh_raw("]", 1); } vh_raw("]", 1); }
		vh_raw("]", 1);
	}
	void snap(E &e, Rng &r)
	{
		std::vector<std::vector<int>> f(3), b(3), v(3), fnd(3); std::vector<std::vector<std::vector<int>>> k(3); std::vector<int> n;
		for (int i = 0; i < 3; i++)
		{
			int c = 0;
			for (N *x = hs[i]->FirstList(); x && c < 3000; x = x->NextList(), c++) { f[i].push_back(ID(x)); v[i].push_back(x->Value.get()); k[i].push_back(nkey(x)); }
			c = 0;
			for (N *x = hs[i]->LastList(); x && c < 3000; x = x->PrevList(), c++) b[i].push_back(ID(x));
			n.push_back(vh_clampz(hs[i]->GetListSize()));
			for (auto &u : U) fnd[i].push_back(ID(find(i, u, r)));
		}
		e.aa("f", f).aa("b", b).aa("v", v).aa("fnd", fnd).a("n", n).i("live", Elem::live - extra); nest("k", k);
	}
	long extra = 0; uint64_t hk = 5381;
	std::vector<N *> nodes(int i) { std::vector<N *> r; int c = 0; for (N *x = hs[i]->FirstList(); x && c < 3000; x = x->NextList(), c++) r.push_back(x); return r; }
	bool copyop(int i, int j, Rng &r);
	bool compatible(N *n, int h) { return ncls[n] == 0 || ncls[n] == cls[h]; }
	L *make(int i, Rng &r)
	{
		size_t sz[] = { 0, 1, 2, 3, 5, 23 };
		if (i == 2) { cls[i] = 2; return new L(sz[r(6)], k1, k2); }
		if (i == 1 && hk != 5381) { cls[i] = 3; return new L(sz[r(6)], hk); }
		cls[i] = 1; return r.chance(1, 5) ? new L : new L(sz[r(6)]);
	}
	void go(Rng &r, int steps, int style)
	{
		size_t h0 = vh_heap();
		{
		U = vh_universe(r, style); k1 = r.next(); k2 = r.next(); if (r.chance(1, 2)) { uint64_t t[] = { 0, 1, 33, 0xFFFFFFFFULL, r.next() }; hk = t[r(5)]; }
		for (int i = 0; i < 3; i++) hs[i] = make(i, r);
		{ std::vector<std::vector<int>> u; for (auto &k : U) u.push_back(k.enc()); E e("init"); e.aa("uni", u); }
		size_t maxn = style == 3 ? 60 : 14; int bulk = style == 3 && steps < 20 && r.chance(1, 2) ? 2 : 0;
		for (int s = 0; s < steps; s++)
		{
			int i = (int)r(3), op = bulk && s == 3 ? 28 : (int)r(30), x = r.range(1, 9); const Key &k = U[r(U.size())]; size_t tot = 0; for (int q = 0; q < 3; q++) tot += hs[q]->GetListSize();
			if (style == 3 && op != 28 && r.chance(1, 2)) op = (int)r(6);
			std::vector<N *> ns = nodes(i);
			N *ref = (ns.empty() || r.chance(1, 3)) ? NULL : ns[r(ns.size())];
			if (tot > maxn && op < 10) op = 11 + (int)r(5);
			vh_pend("op %d hash %d", op, i + 1);
			if (op < 6)
			{
				bool aft = op >= 4; N *n;
				if (!ref) { if (aft) n = k.str ? hs[i]->Unshift(k.s.data(), k.s.size(), Elem(x)) : hs[i]->Unshift(k.n, Elem(x)); else n = k.str ? hs[i]->Push(k.s.data(), k.s.size(), Elem(x)) : hs[i]->Push(k.n, Elem(x)); }
				else { if (aft) n = k.str ? hs[i]->InsertAfter(ref, k.s.data(), k.s.size(), Elem(x)) : hs[i]->InsertAfter(ref, k.n, Elem(x)); else n = k.str ? hs[i]->InsertBefore(ref, k.s.data(), k.s.size(), Elem(x)) : hs[i]->InsertBefore(ref, k.n, Elem(x)); }
				if (n) { adopt(n); ncls[n] = cls[i]; }
				E e(aft ? "after" : "before"); e.i("h", i + 1).i("ref", ID(ref)).a("key", k.enc()).i("x", x).i("ret", ID(n)); snap(e, r);
			}
			else if (op < 10)
			{
				if (det.empty()) { N *n; if (r.chance(1, 2)) n = k.str ? L::CreateNode(k.s.data(), k.s.size(), Elem(x)) : L::CreateNode(k.n, Elem(x)); else { n = L::CreateNode(); if (k.str) n->SetStrKey(k.s.data(), k.s.size(), true); else n->SetIntKey(k.n, true); n->Value = Elem(x); } adopt(n); ncls[n] = 0; det.push_back(n); E e("new"); e.a("key", k.enc()).i("x", x).i("ret", ID(n)); snap(e, r); continue; }
				size_t di = r(det.size()); N *d = det[di]; if (!compatible(d, i)) continue;
				bool aft = op >= 8; N *res;
				if (!ref) res = aft ? hs[i]->Unshift(d) : hs[i]->Push(d); else res = aft ? hs[i]->InsertAfter(ref, d) : hs[i]->InsertBefore(ref, d);
				ncls[d] = cls[i]; if (res) det.erase(det.begin() + (long)di);
				E e(aft ? "afternode" : "beforenode"); e.i("h", i + 1).i("ref", ID(ref)).i("node", ID(d)).i("ret", ID(res)); snap(e, r);
			}
			else if (op == 10) { if (ns.empty()) continue; N *d = ns[r(ns.size())]; N *res = r.chance(1, 2) ? hs[i]->Push(d) : hs[i]->Unshift(d); E e("reinsert"); e.i("h", i + 1).i("node", ID(d)).i("ret", ID(res)); snap(e, r); }
			else if (op < 13) { bool rs = r.chance(1, 2); N *n = op == 11 ? hs[i]->Pop(rs) : hs[i]->Shift(rs); if (n) { det.push_back(n); if (rs) ncls[n] = 0; } E e(op == 11 ? "pop" : "shift"); e.i("h", i + 1).i("ret", ID(n)); snap(e, r); }
			else if (op < 15) { bool rs = r.chance(1, 2); N *n = ns.empty() ? NULL : ns[r(ns.size())]; bool ok = hs[i]->Detach(n, rs); if (n) { det.push_back(n); if (rs) ncls[n] = 0; } E e("detach"); e.i("h", i + 1).i("node", ID(n)).i("ret", ok); snap(e, r); }
			else if (op == 15) { N *n = ns.empty() ? NULL : ns[r(ns.size())]; int q = ID(n); bool ok = hs[i]->Remove(n); if (n) { id.erase(n); ncls.erase(n); } E e("remove"); e.i("h", i + 1).i("node", q).i("ret", ok); snap(e, r); }
			else if (op == 16) { if (det.empty()) continue; size_t di = r(det.size()); N *d = det[di]; int q = ID(d); det.erase(det.begin() + (long)di); id.erase(d); ncls.erase(d); delete d; E e("free"); e.i("node", q); snap(e, r); }
			else if (op == 17) { if (r.chance(1, 2)) continue; for (auto n : ns) { id.erase(n); ncls.erase(n); } hs[i]->Empty(); E e("emptydel"); e.i("h", i + 1); snap(e, r); }
			else if (op == 18) { bool rs = r.chance(1, 2); hs[i]->Empty(false, rs); for (auto n : ns) { det.push_back(n); if (rs) ncls[n] = 0; } E e("emptydet"); e.i("h", i + 1); snap(e, r); }
			else if (op < 21) { hs[i]->ResizeHash((size_t)r.range(1, 12)); E e("resize"); e.i("h", i + 1); snap(e, r); }
			else if (op < 23) { int j = (int)r(3); if (tot + hs[j]->GetListSize() > (bulk ? 1500 : 60)) continue; if (copyop(i, j, r)) { E e("copy"); e.i("h", i + 1).i("src", j + 1); snap(e, r); } }
			else if (op < 25) { if (det.empty()) continue; N *d = det[r(det.size())]; if (k.str) d->SetStrKey(k.s.data(), k.s.size(), true); else d->SetIntKey(k.n, true); ncls[d] = 0; E e("setkey"); e.i("node", ID(d)).a("key", k.enc()); snap(e, r); }
			else if (op == 25)
			{	// a detached node takes over the data of another node
				if (det.empty()) continue; N *d = det[r(det.size())], *n = (ns.empty() || r.chance(1, 3)) ? det[r(det.size())] : ns[r(ns.size())]; *d = *n; ncls[d] = ncls[n]; E e("assign"); e.i("node", ID(d)).i("from", ID(n)); snap(e, r);
			}
			else if (op == 26)
			{	// key memory handed over, or taken back
				if (det.empty() || !k.str || k.s.empty()) continue; N *d = det[r(det.size())]; char *old = d->GetStrKey();
				if (old) { d->SetIntKey((int64_t)x, false); delete[] old; ncls[d] = 0; E e("setkey"); e.i("node", ID(d)).a("key", KI(x).enc()); snap(e, r); }
				else { char *own = new char[k.s.size()]; memcpy(own, k.s.data(), k.s.size()); d->SetStrKey(own, k.s.size(), false); ncls[d] = 0; bool same = d->GetStrKey() == own; E e(same ? "setkey" : "notown"); e.i("node", ID(d)).a("key", k.enc()); snap(e, r); }
			}
			else if (op == 27 && ns.size() > 1 && r.chance(1, 3))
			{	// every q-th entry goes
				size_t q = 1 + r(4), c = 0; for (auto n : ns) if (c++ % q == 0) { hs[i]->Remove(n); id.erase(n); ncls.erase(n); } E e("thin"); e.i("h", i + 1).z("q", q); snap(e, r);
			}
			else if (op == 28 && bulk)
			{
				bulk--; int cnt = (int)(r.chance(1, 4) ? 1 + r(800) : 1 + r(120)); bool front = r.chance(1, 3); int64_t base = 1000000 + (int64_t)nid * 4; bool ok = true; int first = nid;
				for (int q = 0; q < cnt; q++) { N *n = front ? hs[i]->Unshift(base + q, Elem(x)) : hs[i]->Push(base + q, Elem(x)); if (!n || id.count(n)) ok = false; else { adopt(n); ncls[n] = cls[i]; } }
				for (int q = 0; q < cnt; q++) { N *n = hs[i]->Find(base + q); if (!n || ID(n) != first + q) ok = false; } if (hs[i]->Find(base + cnt) || hs[i]->Find(base - 1)) ok = false;
				E e("many"); e.i("h", i + 1).i("base", base).i("cnt", cnt).i("x", x).i("front", front).i("ok", ok); snap(e, r);
			}
			else { if (ns.empty()) continue; N *n = ns[r(ns.size())]; n->Value = Elem(x); E e("write"); e.i("node", ID(n)).i("x", x); snap(e, r); }
		}
		vh_pend("destroy");
		for (auto d : det) delete d;
		for (int i = 0; i < 3; i++) delete hs[i];
		}
		std::map<N *, int>().swap(id); std::map<N *, int>().swap(ncls); std::vector<N *>().swap(det); std::vector<Key>().swap(U);
		size_t h1 = vh_heap();
		E e("end"); e.i("live", Elem::live).i("leak", (long long)h1 - (long long)h0);
	}
};
template <> bool Run<OrderedHash<Elem>>::copyop(int i, int j, Rng &r)
{
	bool ctor = r.chance(1, 2);
	if (i != j) for (auto n : nodes(i)) { id.erase(n); ncls.erase(n); }
	if (ctor && i != j) { delete hs[i]; hs[i] = new OrderedHash<Elem>(*hs[j]); } else *hs[i] = *hs[j];
	cls[i] = cls[j];
	if (i != j) for (auto n : nodes(i)) { adopt(n); ncls[n] = cls[j]; }
	return true;
}
template <> bool Run<OrderedHashNoCopy<Elem>>::copyop(int, int, Rng &) { return false; }

size_t vh_ncases(bool t) { return t ? 10000 : 2400; }
void vh_case(size_t i, Rng &r)
{
	int steps = i % 3 == 0 ? 12 : 45;
	if (i % 5 == 4) { Run<OrderedHashNoCopy<Elem>> R; R.go(r, steps, i % 11 == 3 ? 4 : (int)(i % 4)); } else { Run<OrderedHash<Elem>> R; R.go(r, steps, i % 11 == 3 ? 4 : (int)(i % 4)); }
}
