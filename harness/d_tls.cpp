// Thread-local allocator: three real threads that take turns.
#include "vh.h"
#include "elem.h"
#include "sync/sync_tls.h"
#include <pthread.h>
#include <semaphore.h>
#include <functional>
using namespace CubicleSoft;
typedef Sync::TLS TLS;
struct Worker { pthread_t th; sem_t go, done; std::function<void()> f; bool stop; };
static Worker W[3];
static void *loop(void *p) { Worker *w = (Worker *)p; for (;;) { sem_wait(&w->go); if (w->stop) return NULL; w->f(); sem_post(&w->done); } }
static void in(int t, std::function<void()> f) { t %= 3; W[t].f = f; sem_post(&W[t].go); sem_wait(&W[t].done); }
struct B { int id, t; unsigned char *p; size_t n; int tag; };
// a block is filled with a pattern that starts with its tag
static inline unsigned char pat(int tag, size_t k) { return (unsigned char)((size_t)tag + k * 7 + (k >> 8) * 13 + (k >> 16) * 29); }
static void fill(unsigned char *p, int tag, size_t n) { for (size_t k = 0; k < n; k++) p[k] = pat(tag, k); }
static int common(const unsigned char *p, size_t n) { for (size_t k = 1; k < n; k++) if (p[k] != pat(p[0], k)) return -1; return n ? p[0] : -1; }
size_t vh_ncases(bool t) { return t ? 12000 : 2500; }
void vh_case(size_t ci, Rng &r)
{
	for (int t = 0; t < 3; t++) { sem_init(&W[t].go, 0, 0); sem_init(&W[t].done, 0, 0); W[t].stop = false; pthread_create(&W[t].th, NULL, loop, &W[t]); }
	for (int t = 0; t < 3; t++) in(t, [] { free(malloc(1)); });
	size_t h0 = vh_heap();
	{
	TLS *two[2] = { new TLS, NULL }; if (ci % 2) two[1] = new TLS; std::vector<B> bs; int next = 1, tags = 1, slots = ci % 2 ? 6 : 3; size_t last = 0; bool joined[6] = { false, false, false, false, false, false };
	int steps = ci % 5 == 0 ? 120 : 45; size_t maxn = ci % 7 == 0 ? (ci % 14 == 0 ? 70000 : 700000) : ci % 3 == 0 ? 40 : 600;
	auto size = [&]() -> size_t { switch (r(4)) { case 0: return 1 + r(30); case 1: { size_t k = (size_t)1 << r(maxn > 100000 ? 20 : maxn > 1000 ? 17 : 10); long d = (long)k + r.range(-1, 2); return d < 1 ? 1 : (size_t)d; } case 2: return 1 + r(r.chance(1, 2) ? maxn : maxn / 10 + 1); default: return 1 + r(100); } };
	for (int s = 0; s < steps; s++)
	{
		int t = (int)r(slots), op = (int)r(26); TLS *tls = two[t / 3]; std::vector<size_t> mine; for (size_t k = 0; k < bs.size(); k++) if (bs[k].t == t) mine.push_back(k);
		B *b = mine.empty() ? NULL : &bs[mine[r(mine.size())]]; size_t bi = b ? (size_t)(b - &bs[0]) : 0; bool keep = r.chance(3, 4); vh_pend("op %d", op);
		if (op == 0 || (!joined[t] && r.chance(1, 2)))
		{
			size_t lim = r.chance(1, 3) ? 15 : r.chance(1, 4) ? r(21) : maxn > 1000 && r.chance(1, 2) ? 18 + r(4) : 3 + r(8); bool ret = false; bool def = lim == 15 && r.chance(1, 2);
			in(t, [&] { ret = def ? tls->ThreadInit() : tls->ThreadInit(lim); }); joined[t] = true;
			E e("join"); e.i("t", t + 1).z("lim", lim).t("ret", ret);
		}
		else if (op == 1) { if (!mine.empty()) continue; bool ret = false; in(t, [&] { ret = tls->ThreadEnd(); }); joined[t] = false; E e("leave"); e.i("t", t + 1).t("ret", ret); }
		else if (op < 10)
		{
			size_t n = r.chance(1, 40) ? 0 : size(); unsigned char *p = NULL; int tag = 1 + tags++ % 250; bool st = r.chance(1, 4);
			in(t, [&] { p = (unsigned char *)(st ? TLS::malloc((void *)tls, n) : tls->malloc(n)); if (p) fill(p, tag, n); });
			{ E e("malloc"); e.i("t", t + 1).z("n", n).t("ret", p != NULL).i("id", next).i("tag", tag); }
			if (p) { B nb = { next++, t, p, n, tag }; bs.push_back(nb); }
		}
		else if (op == 10)
		{
			if (!joined[t]) continue;
			if (b && r.chance(1, 2)) { unsigned char *p = NULL; in(t, [&] { p = (unsigned char *)tls->realloc(b->p, (size_t)1 << 46); }); E e("hugere"); e.i("t", t + 1).i("id", b->id).i("n", 1).t("ret", p != NULL); }
			else { void *p = NULL; in(t, [&] { p = tls->malloc((size_t)1 << 46); }); E e("huge"); e.i("t", t + 1).i("n", 1).t("ret", p != NULL); }
		}
		else if (op < 15)
		{
			if (!b) { if (r.chance(1, 3)) { in(t, [&] { tls->free(NULL); }); E e("freenull"); } continue; }
			int way = (int)r(3); B c = *b;
			in(t, [&] { if (way == 0 && keep) TLS::free((void *)tls, c.p); else if (way == 1 && keep) { TLS::AutoFree af(tls, c.p); } else tls->free(c.p, keep); });
			bs.erase(bs.begin() + (long)bi); last = c.n; E e("free"); e.i("t", t + 1).i("id", c.id).t("keep", keep);
		}
		else if (op < 20)
		{
			if (!joined[t]) continue;
			if (!b || r.chance(1, 12))
			{
				// resizing nothing allocates
				size_t n = size(); int tag = 1 + tags++ % 250; unsigned char *p = NULL; in(t, [&] { p = (unsigned char *)tls->realloc(NULL, n, keep); if (p) fill(p, tag, n); });
				{ E e("malloc"); e.i("t", t + 1).z("n", n).t("ret", p != NULL).i("id", next).i("tag", tag); } if (p) { B nb = { next++, t, p, n, tag }; bs.push_back(nb); } continue;
			}
			if (r.chance(1, 15)) { void *p = NULL; B c = *b; in(t, [&] { p = tls->realloc(c.p, 0, keep); }); bs.erase(bs.begin() + (long)bi); E e("realloc0"); e.i("t", t + 1).i("id", c.id).t("keep", keep).t("ret", p != NULL); continue; }
			size_t n = b->n > 2000 && b->n < 800000 && r.chance(1, 2) ? b->n * 2 + r(9) : r.chance(1, 2) ? size() : std::max((size_t)1, b->n + r(60)); int tag = 1 + tags++ % 250, pre = -1; unsigned char *p = NULL, *old = b->p; bool st = keep && r.chance(1, 3);
			in(t, [&] { p = (unsigned char *)(st ? TLS::realloc((void *)tls, b->p, n) : tls->realloc(b->p, n, keep)); if (p) { pre = common(p, std::min(n, b->n)); fill(p, tag, n); } });
			{ E e("realloc"); e.i("t", t + 1).i("id", b->id).z("n", n).t("keep", keep).i("tag", tag).i("pre", pre).t("ret", p != NULL).t("moved", p != old); }
			if (p) { b->p = p; b->n = n; b->tag = tag; } else break;
		}
		else if (op == 20)
		{
			if (!b) continue; B c = *b; unsigned char *p = NULL; int val = -1; in(t, [&] { p = (unsigned char *)tls->dup_malloc(c.p, keep); if (p) { val = common(p, c.n); ::free(p); } });
			bs.erase(bs.begin() + (long)bi); E e("dup"); e.i("t", t + 1).i("id", c.id).t("keep", keep).i("val", val);
		}
		else if (op < 23) { size_t p = r(22); if (last && r.chance(1, 2)) { p = 3; while (((size_t)1 << p) < last) p++; } size_t nodes = 0, sz = 0; bool ret = false; in(t, [&] { ret = tls->GetBucketInfo(p, nodes, sz); }); E e("bucket"); e.i("t", t + 1).z("p", p).t("ret", ret).z("nodes", nodes).z("bytes", sz).z("node", sizeof(QueueNode<char>)); }
		else { std::vector<std::vector<int>> o; for (auto &x : bs) { std::vector<int> q; q.push_back(x.id); q.push_back(common(x.p, x.n)); o.push_back(q); } E e("look"); e.aa("b", o); }
	}
	{ std::vector<std::vector<int>> o; for (auto &x : bs) { std::vector<int> q; q.push_back(x.id); q.push_back(common(x.p, x.n)); o.push_back(q); } E e("look"); e.aa("b", o); }
	for (auto &x : bs) { B c = x; TLS *tls = two[c.t / 3]; in(c.t, [&] { tls->free(c.p); }); E e("free"); e.i("t", c.t + 1).i("id", c.id).t("keep", true); }
	for (int t = 0; t < slots; t++) { TLS *tls = two[t / 3]; bool ret = false; in(t, [&] { ret = tls->ThreadEnd(); }); E e("leave"); e.i("t", t + 1).t("ret", ret); }
	delete two[0]; delete two[1];
	}
	for (int t = 0; t < 3; t++) W[t].f = nullptr;
	size_t h1 = vh_heap(); { E e("end"); e.i("leak", (long long)h1 - (long long)h0); }
	for (int t = 0; t < 3; t++) { W[t].stop = true; sem_post(&W[t].go); pthread_join(W[t].th, NULL); sem_destroy(&W[t].go); sem_destroy(&W[t].done); }
}
