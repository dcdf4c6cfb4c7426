#include "vh.h"
#include "elem.h"
#include <cstddef>
#include <algorithm>
#include "templates/detachable_queue.h"
using namespace CubicleSoft;
typedef QueueNode<Elem> N;

static std::vector<int> consec(const std::vector<int> &v, int d)
{
	std::vector<int> r; for (size_t k = 0; k < v.size(); k++) { if (r.size() && v[k] == r[r.size() - 2] + d * r[r.size() - 1]) r[r.size() - 1]++; else { r.push_back(v[k]); r.push_back(1); } }
	return r;
}
template <class L> struct Run
{
	L *ls[3]; std::map<N *, int> id; std::set<N *> det; int nid = 1; bool big = false; int cap = 200;
	int ID(N *n) { if (!n) return 0; auto it = id.find(n); return it == id.end() ? -1 : it->second; }
	void adopt(N *n) { if (n && !id.count(n)) id[n] = nid++; }
	void snap(E &e)
	{
		std::vector<std::vector<int>> f(3), v(3); std::vector<int> n, fi, la;
		for (int i = 0; i < 3; i++)
		{
			int c = 0;
			for (N *x = ls[i]->First(); x && c < cap; x = x->Next(), c++) { f[i].push_back(ID(x)); v[i].push_back(x->Value.get()); }
			n.push_back(vh_clampz(ls[i]->GetSize())); fi.push_back(ID(ls[i]->First())); la.push_back(ID(ls[i]->Last()));
		}
		if (big) { for (int i = 0; i < 3; i++) { f[i] = consec(f[i], 1); v[i] = consec(v[i], 0); } e.aa("fr", f).aa("vr", v).a("n", n).a("first", fi).a("last", la).i("live", Elem::live); return; }
		e.aa("f", f).aa("v", v).a("n", n).a("first", fi).a("last", la).i("live", Elem::live);
	}
	std::vector<N *> nodes(int i) { std::vector<N *> r; int c = 0; for (N *x = ls[i]->First(); x && c < cap; x = x->Next(), c++) r.push_back(x); return r; }
	void copyop(int i, int j, Rng &r);
	void go(Rng &r, int steps, int maxn)
	{
		size_t h0 = vh_heap();
		{
		for (int i = 0; i < 3; i++) ls[i] = new L;
		for (int i = 0; i < 3; i++) if (r.chance(1, 4))
		{
			vh_pend("construct from value"); int x = r.range(1, 9); delete ls[i]; ls[i] = new L(Elem(x)); N *n = ls[i]->First(); adopt(n);
			E e("push"); e.i("l", i + 1).i("x", x).i("ret", ID(n)); snap(e);
		}
		if (big) { static const int cs[] = {254, 255, 256, 257, 600, 511, 512, 513, 1000}; for (int k = 0; k < 2; k++) { int i = (int)r(3), c = cs[k ? r(5) : r(9)], x = r.range(1, 9); cap += c * 5; vh_pend("many"); for (int z = 0; z < c; z++) adopt(ls[i]->Push(Elem(x))); E e("many"); e.i("l", i + 1).i("c", c).i("x", x); snap(e); } }
		for (int s = 0; s < steps; s++)
		{
			int i = (int)r(3), op = (int)r(18), x = r.range(1, 9); size_t tot = 0; for (int k = 0; k < 3; k++) tot += ls[k]->GetSize();
			std::vector<N *> ns = nodes(i);
			if (tot > (size_t)maxn && op < 8) op = 9 + (int)r(5);
			vh_pend("op %d queue %d", op, i + 1);
			if (op < 3) { N *n; if (r.chance(1, 3)) { *ls[i] += Elem(x); n = ls[i]->Last(); } else n = ls[i]->Push(Elem(x)); adopt(n); E e("push"); e.i("l", i + 1).i("x", x).i("ret", ID(n)); snap(e); }
			else if (op < 5) { N *n = ls[i]->Unshift(Elem(x)); adopt(n); E e("unshift"); e.i("l", i + 1).i("x", x).i("ret", ID(n)); snap(e); }
			else if (op < 8)
			{
				if (det.empty()) { N *n; if (r.chance(1, 2)) n = L::CreateNode(Elem(x)); else { n = L::CreateNode(); n->Value = Elem(x); } adopt(n); det.insert(n); E e("new"); e.i("x", x).i("ret", ID(n)); snap(e); continue; }
				N *d = *std::next(det.begin(), (long)r(det.size())); N *res;
				if (op < 7) { if (r.chance(1, 3)) { *ls[i] += d; res = ls[i]->Last(); } else res = ls[i]->Push(d); } else res = ls[i]->Unshift(d);
				det.erase(d);
				E e(op < 7 ? "pushnode" : "unshiftnode"); e.i("l", i + 1).i("node", ID(d)).i("ret", ID(res)); snap(e);
			}
			else if (op == 8)
			{
				if (ns.size() < 2) continue;
				N *d = ns[r(ns.size() - 1)]; int j = (int)r(3); N *res = r.chance(1, 2) ? ls[j]->Push(d) : ls[j]->Unshift(d);
				E e("reinsert"); e.i("l", j + 1).i("node", ID(d)).i("ret", ID(res)); snap(e);
			}
			else if (op < 12) { N *n = ls[i]->Shift(); if (n) det.insert(n); E e("shift"); e.i("l", i + 1).i("ret", ID(n)); snap(e); }
			else if (op == 12) { if (det.empty()) continue; N *d = *std::next(det.begin(), (long)r(det.size())); int k = ID(d); det.erase(d); id.erase(d); delete d; E e("free"); e.i("node", k); snap(e); }
			else if (op == 13) { for (auto n : ns) id.erase(n); ls[i]->Empty(); E e("empty"); e.i("l", i + 1); snap(e); }
			else if (op < 16) { int j = (i + 1 + (int)r(2)) % 3; ls[i]->DetachAllAndAppend(*ls[j]); E e("append"); e.i("l", i + 1).i("src", j + 1); snap(e); }
			else if (op == 16) { int j = (int)r(3); if (!big && tot + ls[j]->GetSize() > 40) continue; copyop(i, j, r); }
			else { if (ns.empty()) continue; N *n = ns[r(ns.size())]; n->Value = Elem(x); E e("write"); e.i("node", ID(n)).i("x", x); snap(e); }
		}
		vh_pend("destroy");
		for (auto d : det) delete d;
		for (int i = 0; i < 3; i++) delete ls[i];
		}
		std::map<N *, int>().swap(id); std::set<N *>().swap(det);
		size_t h1 = vh_heap();
		E e("end"); e.i("live", Elem::live).i("leak", (long long)h1 - (long long)h0);
	}
};
template <> void Run<Queue<Elem>>::copyop(int i, int j, Rng &r)
{
	bool ctor = r.chance(1, 2);
	if (i != j) for (auto n : nodes(i)) id.erase(n);
	if (ctor && i != j) { delete ls[i]; ls[i] = new Queue<Elem>(*ls[j]); } else *ls[i] = *ls[j];
	if (i != j) for (auto n : nodes(i)) adopt(n);
	E e("copy"); e.i("l", i + 1).i("src", j + 1); snap(e);
}
template <> void Run<QueueNoCopy<Elem>>::copyop(int, int, Rng &) {}

size_t vh_ncases(bool t) { return t ? 12000 : 3000; }
void vh_case(size_t i, Rng &r)
{
	int steps = i % 3 == 0 ? 12 : 40; bool big = i % 300 == 150 || i % 300 == 151; if (big) steps = 14;
	if (i % 4 == 3) { Run<QueueNoCopy<Elem>> R; R.big = big; R.go(r, steps, big ? 70000 : 12); } else { Run<Queue<Elem>> R; R.big = big; R.go(r, steps, big ? 70000 : 12); }
}
