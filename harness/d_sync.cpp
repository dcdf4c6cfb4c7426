// Runs programs over the sync classes under many schedules; logs calls, returns, quiescence and time.
// MODE 0 mutex, 1 semaphore, 2 event, 3 reader/writer lock, 4 timeouts, 5 wakeups, 6 names, 7 shared memory
#include "fib.h"
#include "sync/sync_mutex.h"
#include "sync/sync_semaphore.h"
#include "sync/sync_event.h"
#include "sync/sync_readwritelock.h"
#include "sync/sync_sharedmem.h"
#include <new>
using namespace CubicleSoft::Sync;
// Memory from new[] arrives with arbitrary contents, and nothing may be written around it.
static const size_t gsz = 64;
void *operator new[](size_t n) { unsigned char *q = (unsigned char *)::malloc(n + 2 * gsz); if (!q) abort(); memset(q, 0xB7, n + 2 * gsz); memcpy(q, &n, sizeof n); memset(q + gsz, 0xBE, n); return q + gsz; }
void operator delete[](void *v) noexcept
{
	if (!v) return;
	unsigned char *q = (unsigned char *)v - gsz; size_t n; memcpy(&n, q, sizeof n); bool ok = n < ((size_t)1 << 40);
	for (size_t k = sizeof n; ok && k < gsz; k++) ok = q[k] == 0xB7;
	for (size_t k = 0; ok && k < gsz; k++) ok = q[gsz + n + k] == 0xB7;
	if (!ok) fib::misuse("memory outside an allocated block was overwritten");
	::free(q);
}
void *operator new(size_t n) { void *q = ::malloc(n ? n : 1); if (!q) abort(); memset(q, 0xBE, n); return q; }
void operator delete(void *v) noexcept { ::free(v); }
void operator delete(void *v, size_t) noexcept { ::free(v); }
void operator delete[](void *v, size_t) noexcept { operator delete[](v); }
#ifndef MODE
#define MODE 0
#endif
enum Kind { MU, SE, EV, RW, SM };
static const char *kn[] = {"mutex", "sem", "event", "rw", "shm"};
enum F { LOCK, UNLOCK, UNLOCKALL, SWAIT, SREL, EWAIT, FIRE, RESET, RL, WL, RU, WU, CREATE, DESTROY, POKE, PEEK, NAP, RELALL };
static const char *fnm[] = {"lock", "unlock", "unlockall", "swait", "srel", "ewait", "fire", "reset", "rl", "wl", "ru", "wu", "create", "destroy", "poke", "peek", "nap", "relall"};
struct H { int kind, proc, name, p1, p2; bool never; };          // handle: how it is created (never: not at all)
struct Op { int f, h; uint32_t w; int a, b; bool fault; };
struct Thr { int proc; std::vector<Op> ops; };
struct Prog { std::vector<H> hs; std::vector<Thr> th; bool setup, fin; };
static std::string names[12] = {"", "n", "n1", "N", "n-1", std::string(200, 'x') + "a", std::string(200, 'x') + "b", std::string(320, 'y'), "\xc3\xbc mit blank", "8n", "0n", "4n"};

struct Obj { int kind; Mutex *m; Semaphore *s; Event *e; ReadWriteLock *r; SharedMem *p; };
static std::vector<Obj> objs; static Prog *P;
static int held[16][300], rheld[16][300], wheld[16][300];    // [thread][handle]
static long nowus() { return (long)(vnow / 1000); }
static bool farmode;

static bool doop(int t, const Op &o)
{
	const H &h = P->hs[(size_t)o.h]; Obj &b = objs[(size_t)o.h];
	if (o.f == NAP) { if (o.w) vf_usleep(o.w); return true; }
	if (o.f == POKE || o.f == PEEK)
	{
		if (!b.p->RawData() || (size_t)o.a >= b.p->GetSize()) return true;
		fib::yield();
		char *p = b.p->RawData();
		if (o.f == POKE) { p[o.a] = (char)o.b; E e("poke"); e.i("t", t).i("h", o.h + 1).i("o", o.a + 1).i("v", (unsigned char)o.b); }
		else { E e("peek"); e.i("t", t).i("h", o.h + 1).i("o", o.a + 1).i("v", (unsigned char)p[o.a]).i("sz", (int)b.p->GetSize()); }
		return true;
	}
	{
		E e("call"); e.i("t", t).s("f", fnm[o.f]).i("h", o.h + 1).s("k", kn[h.kind]);
		if (o.f == CREATE) e.i("name", h.name).i("p1", h.p1).i("p2", h.p2).t("fault", o.fault);
		else e.i("w", o.w == INFINITE ? -1 : o.w > 2000000 ? -2 : (int)o.w).t("fault", o.fault);
	}
	bool r = false; int v = -1; uint32_t w = o.w; const char *nm = h.name ? names[h.name].c_str() : NULL;
	vh_pend("t%d %s h%d", t, fnm[o.f], o.h + 1);
	cur->wres = 0;
	if (o.fault) { if (o.f == CREATE) cur->fshm = true; else cur->fclk = true; }
	switch (o.f)
	{
	case LOCK: r = b.m->Lock(w); if (r) held[t][o.h]++; break;
	case UNLOCK: if (o.b && held[t][o.h] > 0) { { Mutex::AutoUnlock u(b.m); } r = true; v = -9; } else r = b.m->Unlock(); if (r) held[t][o.h]--; break;
	case UNLOCKALL: r = b.m->Unlock(true); if (r) held[t][o.h] = 0; break;
	case SWAIT: r = b.s->Lock(w); if (r) held[t][o.h]++; break;
	case SREL: if (o.b == 1) { { Semaphore::AutoUnlock u(b.s); } r = !h.never; v = -9; } else if (o.b == 2) { r = b.s->Unlock(); v = -9; } else r = b.s->Unlock(&v); if (held[t][o.h]) held[t][o.h]--; break;
	case EWAIT: r = b.e->Wait(w); break;
	case FIRE: r = b.e->Fire(); break;
	case RESET: r = b.e->Reset(); break;
	case RL: r = b.r->ReadLock(w); if (r) rheld[t][o.h]++; break;
	case WL: r = b.r->WriteLock(w); if (r) wheld[t][o.h]++; break;
	case RU: if (o.b && rheld[t][o.h]) { { ReadWriteLock::AutoReadUnlock u(b.r); } r = true; v = -9; } else r = b.r->ReadUnlock(); if (rheld[t][o.h]) rheld[t][o.h]--; break;
	case WU: if (o.b && wheld[t][o.h]) { { ReadWriteLock::AutoWriteUnlock u(b.r); } r = true; v = -9; } else r = b.r->WriteUnlock(); if (wheld[t][o.h]) wheld[t][o.h]--; break;
	case CREATE:
		if (h.kind == MU) r = b.m->Create(nm); else if (h.kind == SE) r = b.s->Create(nm, h.p1); else if (h.kind == EV) r = b.e->Create(nm, h.p1 != 0, h.p2 != 0);
		else if (h.kind == RW) r = b.r->Create(nm); else { r = b.p->Create(nm, (size_t)h.p1); v = b.p->First(); }
		if (r || h.kind != MU) held[t][o.h] = rheld[t][o.h] = wheld[t][o.h] = 0;
		break;
	case DESTROY:
		r = true; held[t][o.h] = rheld[t][o.h] = wheld[t][o.h] = 0;
		if (h.kind == MU) { b.m->~Mutex(); new (b.m) Mutex(); } else if (h.kind == SE) { b.s->~Semaphore(); new (b.s) Semaphore(); } else if (h.kind == EV) { b.e->~Event(); new (b.e) Event(); }
		else if (h.kind == RW) { b.r->~ReadWriteLock(); new (b.r) ReadWriteLock(); } else { b.p->~SharedMem(); new (b.p) SharedMem(); }
		break;
	}
	cur->fclk = cur->fshm = false;
	{ E e("ret"); e.i("t", t).s("f", fnm[o.f]).t("r", r).i("v", v); }
	return r;
}
static void relall(int t)
{
	for (size_t h = 0; h < P->hs.size(); h++)
	{
		Op o = {NAP, (int)h, 0, 0, (int)((h + (size_t)t) % 2), false};
		if (P->hs[h].kind == MU) while (held[t][h] > 0 && !farmode) { o.f = UNLOCK; if (!doop(t, o)) break; }
		if (P->hs[h].kind == SE) while (held[t][h] > 0 && !farmode) { o.f = SREL; doop(t, o); }
		while (wheld[t][h] > 0 && !farmode) { o.f = WU; doop(t, o); }
		while (rheld[t][h] > 0 && !farmode) { o.f = RU; doop(t, o); }
	}
}
static void body(int t)
{
	for (auto &o : P->th[(size_t)t].ops)
	{
		if (farmode) return;
		// keep to the documented use: release only what one holds (a few exceptions are generated on purpose: a = 1)
		if (o.f == RELALL) { relall(t); continue; }
		if (o.f == SREL && !held[t][o.h] && !o.a) continue;
		if (o.f == RU && !rheld[t][o.h] && !o.a) continue;
		if (o.f == WU && !wheld[t][o.h]) continue;
		if (o.f == DESTROY || o.f == CREATE) { if (P->hs[(size_t)o.h].kind != MU && (held[t][o.h] || rheld[t][o.h] || wheld[t][o.h])) relall(t); }
		doop(t, o);
	}
}
static void onerun(Prog &p)
{
	P = &p; reset(); if (p.hs.size() > 8) maxsteps += (long)p.hs.size() * 4000; if (p.th.size() > 5) maxsteps *= 4; shmreset(); vnow = 1000; memset(held, 0, sizeof held); memset(rheld, 0, sizeof rheld); memset(wheld, 0, sizeof wheld);
	static bool once; if (!once) { once = true; }
	objs.clear();
	static std::vector<void *> junk; 
	for (auto &h : p.hs)
	{
		Obj b; memset(&b, 0, sizeof b); b.kind = h.kind;
		if (h.kind == MU) b.m = new Mutex(); else if (h.kind == SE) b.s = new Semaphore(); else if (h.kind == EV) b.e = new Event(); else if (h.kind == RW) b.r = new ReadWriteLock(); else b.p = new SharedMem();
		objs.push_back(b);
	}
	auto quiet = [] { E e("quiet"); }; auto tick = [] { E e("tick"); e.i("now", nowus()); };
	onlag = [] { E e("lag"); e.i("now", nowus()); };
	{ E e("begin"); e.i("now", nowus()).i("nh", (int)p.hs.size()).i("nt", (int)std::max<size_t>(8, p.th.size())); }
	bool ok = true;
	if (p.setup)
	{
		bool d = dfs; dfs = false; int a = p_sync, b2 = p_mem, c = p_spur, g = p_lag; p_sync = p_mem = p_spur = p_lag = 0;
		spawn(15, 0, [&] { for (size_t h = 0; h < p.hs.size(); h++) { if (p.hs[h].never) continue; cur->proc = p.hs[h].proc; Op o = {CREATE, (int)h, 0, 0, 0, false}; doop(7, o); } });
		ok = run(quiet, tick, 1000000000ull * 10); dfs = d; p_sync = a; p_mem = b2; p_spur = c; p_lag = g;
		for (auto f : fs) { stkpool.push_back(f->stack); delete f; } fs.clear();
	}
	if (ok)
	{
		for (size_t t = 0; t < p.th.size(); t++) { int T = (int)t; spawn(p.th[t].proc * 16 + T, p.th[t].proc, [T] { body(T); }); }
		ok = run(quiet, tick, 1000000000ull * 1500);
	}
	auto nextus = [] { return vnext == 0 ? -1L : vnext > 2147000000000ull ? 2147000000L : (long)(vnext / 1000); };
	if (stuck) { E e("livelock"); }
	else if (!ok && vnext && !dfs)
	{
		// wait for weeks: every call that ends now is reported, its thread does nothing else
		{ E e("far"); e.i("now", nowus()).i("next", nextus()); }
		farmode = true; p_lag = 0; int n = 0;
		while (!ok && !stuck && vnext && n++ < 20) { vnow = vnext; ok = run([] {}, [] {}, 0); }
		farmode = false;
		if (stuck) { E e("livelock"); } else if (!vnext || ok) { E e("farend"); }
		ok = false;
	}
	else if (!ok) { E e("stop"); e.i("next", nextus()); }
	else if (p.fin)
	{
		for (auto f : fs) { stkpool.push_back(f->stack); delete f; } fs.clear();
		bool d = dfs; dfs = false; int a = p_sync, b2 = p_mem, c = p_spur, g = p_lag; p_sync = p_mem = p_spur = p_lag = 0;
		spawn(15, 0, [&] { for (size_t h = 0; h < p.hs.size(); h++) { cur->proc = p.hs[h].proc; Op o = {DESTROY, (int)h, 0, 0, 0, false}; doop(7, o); } });
		ok = run(quiet, tick, 1000000000ull * 10); dfs = d; p_sync = a; p_mem = b2; p_spur = c; p_lag = g;
		if (stuck) { E e("livelock"); }
		else if (!ok) { E e("stop"); e.i("next", nextus()); }
		else { E e("end"); e.i("maps", (int)maps.size()).i("fds", (int)fds.size()); }
	}
	// give the memory of the handles back without running their destructors (the run may have been cut short)
	for (auto &b : objs) { if (ok) { ::operator delete(b.kind == MU ? (void *)b.m : b.kind == SE ? (void *)b.s : b.kind == EV ? (void *)b.e : b.kind == RW ? (void *)b.r : (void *)b.p); } }
	for (auto f : fs) { stkpool.push_back(f->stack); delete f; } fs.clear(); cur = NULL;
	shmreset();
}
// ------------------------------------------------ programs
static uint32_t waitval(Rng &r)
{
#if MODE == 4
	static const uint32_t v[] = {1, 2, 5, 10, 20, 999, 1000, 1001, 2500, 4294, 4295, 5000, 65536, 100000, 500000};
	int k = (int)r(20); if (k < 1) return 0; if (k < 3) return INFINITE; if (k < 4) return 0xFFFFFFFEu; if (k < 12) return v[r(5)]; return v[r(15)];
#elif MODE == 5
	int k = (int)r(10); if (k < 6) return INFINITE; if (k < 7) return 0; return 5 * (1 + (uint32_t)r(4));
#else
	int k = (int)r(20); if (k < 8) return INFINITE; if (k < 13) return 0; return 5 * (1 + (uint32_t)r(3));
#endif
}
static uint32_t napval(Rng &r)
{
#if MODE == 4
	static const uint32_t v[] = {1000, 2000, 5000, 10000, 20000, 999, 1001, 4999, 5001, 999000, 1000000, 1001000, 2500000, 4295000, 5000000};
	return v[r(3) ? r(9) : r(15)] + (r(6) ? 0 : (uint32_t)r(1500));
#else
	return r(3) ? 5000 * (1 + (uint32_t)r(3)) : (uint32_t)r(2000);
#endif
}
static int offs(Rng &r, int n) { int k = (int)r(6); int a = k < 3 ? (int)r(4) : k < 5 ? n - 1 - (int)r(4) : (int)r((size_t)n); return a < 0 ? 0 : a; }
// a few special shapes: many levels, many units, creating a mutex again while it is held
static bool special(size_t ci, Rng &r, Prog &p)
{
	p.setup = true; p.fin = true; H h = {MODE, 0, 0, 0, 0, false}; size_t v = ci / 4, v2 = MODE >= 6 ? ci : v; (void)v2; int named = (int)(v % 2); h.name = named ? 1 + (int)r(8) : 0;
#if MODE >= 6
	{
		// many handles of one name: the object is there until the last one is gone
		static const int ns[] = {9, 17, 33, 10, 65, 9, 18, 129, 9, 257}; int n = ns[v2 % 10] + (int)r(2), kind = MODE == 7 ? SM : (int)(ci % 4);
		h.kind = kind; h.name = 1 + (int)r(8); if (kind == SE) h.p1 = 3; if (kind == EV) h.p1 = 1; if (kind == SM) h.p1 = r(2) ? 4096 : 70000;
		for (int k = 0; k < n; k++) p.hs.push_back(h); h.proc = (int)r(2); p.hs.push_back(h); p.hs.push_back(h); p.setup = true;
		Thr a, b; a.proc = 0; b.proc = h.proc; int keep = r(2) ? 0 : (int)r((size_t)n); auto A = [&](Thr &t, int f, int hh, int x, int y) { t.ops.push_back({f, hh, 0u, x, y, false}); };
		static const int fa[] = {LOCK, SWAIT, FIRE, RL, POKE}, fb[] = {LOCK, SWAIT, EWAIT, WL, PEEK};
		A(a, fa[kind], keep, 7, 77); A(a, NAP, 0, 0, 0); a.ops.back().w = 5000;
		for (int k = 0; k < n; k++) if (k != keep) { A(a, DESTROY, k, 0, 0); if (k % 8 == 7) { A(a, NAP, 0, 0, 0); a.ops.back().w = 5000; } }
		A(a, NAP, 0, 0, 0); a.ops.back().w = 5000; if (kind != EV) A(a, fa[kind], keep, 8, 78); A(a, RELALL, 0, 0, 0); A(a, DESTROY, keep, 0, 0);
		for (int k = 0; k < n / 8 + 3; k++)
		{
			A(b, NAP, 0, 0, 0); b.ops.back().w = 4000 + (uint32_t)r(3) * 1000; int g = n + (int)r(2); if (r(2)) A(b, r(3) ? CREATE : DESTROY, g, 0, 0); if (kind == SM) A(b, PEEK, g, 7, 0); A(b, fb[kind], g, 8, 0); A(b, RELALL, 0, 0, 0);
		}
		A(b, DESTROY, n, 0, 0); A(b, DESTROY, n + 1, 0, 0); A(b, NAP, 0, 0, 0); b.ops.back().w = 200000; A(b, CREATE, n, 0, 0); A(b, fb[kind], n, 7, 0); A(b, RELALL, 0, 0, 0);
		p.th.push_back(a); p.th.push_back(b); return true;
	}
#endif
#if MODE != 4 && MODE <= 5
	if (ci % 4 == 3)
	{
		// many threads at one object
		h.kind = MODE == 5 ? (int)(v2 % 4) : MODE; int kind = h.kind; int nt = kind == MU ? 11 : 9 + (int)r(2); if (kind == SE) h.p1 = 1 + (int)r(3); if (kind == EV) { h.p1 = (int)r(2); h.p2 = 0; }
		p.hs.push_back(h); if (named) { H g = h; g.proc = 1; p.hs.push_back(g); }
		static const int f1[] = {LOCK, SWAIT, EWAIT, RL};
		for (int t = 0; t < nt; t++)
		{
			Thr a; a.proc = named ? t % 2 : 0; int g = a.proc; int f = f1[kind]; if (kind == RW && (t == 0 || r(4) == 0)) f = WL;
			if (kind == EV && t < 2)
			{
				a.ops.push_back({NAP, 0, 8000u + 2000u * (uint32_t)t, 0, 0, false});
				for (int k = 0; k < (h.p1 ? 1 : nt); k++) { a.ops.push_back({FIRE, g, 0, 0, 0, false}); a.ops.push_back({NAP, 0, 5000, 0, 0, false}); }
				p.th.push_back(a); continue;
			}
			a.ops.push_back({NAP, 0, t ? 1000u + (uint32_t)r(3) * 500u : 1u, 0, 0, false}); a.ops.push_back({f, g, r(6) ? (uint32_t)INFINITE : 500u, 0, 0, false}); a.ops.push_back({NAP, 0, 3000, 0, 0, false}); a.ops.push_back({RELALL, 0, 0, 0, 0, false});
			p.th.push_back(a);
		}
		return true;
	}
#endif
#if MODE == 0
	if (ci % 4 == 0)
	{
		// T0 holds the mutex at some depth; T1 creates the same object again meanwhile, then tries to use it
		p.hs.push_back(h); if (named) { H g = h; g.proc = 1; p.hs.push_back(g); }
		Thr a, b, c; a.proc = b.proc = 0; c.proc = named;
		for (int k = 0; k <= (int)r(3); k++) a.ops.push_back({LOCK, 0, (uint32_t)INFINITE, 0, 0, false});
		a.ops.push_back({NAP, 0, 10000 + (uint32_t)r(3) * 5000, 0, 0, false}); a.ops.push_back({RELALL, 0, 0, 0, 0, false});
		b.ops.push_back({NAP, 0, 1 + (uint32_t)r(4) * 5000, 0, 0, false}); b.ops.push_back({CREATE, 0, 0, 0, 0, false}); b.ops.push_back({LOCK, 0, r(2) ? 0u : 5u, 0, 0, false}); b.ops.push_back({NAP, 0, (uint32_t)r(3) * 5000, 0, 0, false}); b.ops.push_back({RELALL, 0, 0, 0, 0, false});
		if (r(2)) { for (int k = 0; k <= (int)r(2); k++) b.ops.push_back({LOCK, 0, (uint32_t)INFINITE, 0, 0, false}); b.ops.push_back({CREATE, 0, 0, 0, 0, false}); b.ops.push_back({r(2) ? LOCK : UNLOCK, 0, 0, 0, 0, false}); b.ops.push_back({RELALL, 0, 0, 0, 0, false}); }
		p.th.push_back(a); p.th.push_back(b);
		if (named) { c.ops.push_back({NAP, 0, (uint32_t)r(5) * 5000, 0, 0, false}); c.ops.push_back({LOCK, 1, r(2) ? (uint32_t)INFINITE : 15u, 0, 0, false}); c.ops.push_back({RELALL, 0, 0, 0, 0, false}); p.th.push_back(c); }
		return true;
	}
#endif
#if MODE == 0
	if (ci % 4 == 2)
	{
		// T0 destroys (or creates again) an object while it holds the mutex at some depth; T1 uses another object of the same name
		h.name = 1 + (int)r(8); p.hs.push_back(h); { H g = h; g.proc = (int)(v % 2); p.hs.push_back(g); }
		Thr a, b; a.proc = 0; b.proc = p.hs[1].proc;
		for (int j = 0; j <= (int)r(2); j++)
		{
			for (int k = 0; k <= (int)r(3); k++) a.ops.push_back({LOCK, 0, (uint32_t)INFINITE, 0, 0, false});
			if (r(2)) a.ops.push_back({NAP, 0, 1 + (uint32_t)r(4) * 5000, 0, 0, false});
			if (r(4) == 0) a.ops.push_back({UNLOCK, 0, 0, 0, 0, false});
			if (r(3)) { a.ops.push_back({DESTROY, 0, 0, 0, 0, false}); if (r(3) == 0) a.ops.push_back({LOCK, 0, 0, 0, 0, false}); }
			a.ops.push_back({CREATE, 0, 0, 0, 0, false});
		}
		a.ops.push_back({RELALL, 0, 0, 0, 0, false});
		for (int j = 0; j <= (int)r(2); j++)
		{
			b.ops.push_back({NAP, 0, (uint32_t)r(5) * 5000, 0, 0, false}); b.ops.push_back({LOCK, 1, r(2) ? (uint32_t)INFINITE : (uint32_t)r(4) * 10, 0, 0, false});
			if (r(2)) b.ops.push_back({NAP, 0, (uint32_t)r(3) * 5000, 0, 0, false}); b.ops.push_back({RELALL, 0, 0, 0, 0, false});
		}
		p.th.push_back(a); p.th.push_back(b); return true;
	}
#endif
#if MODE <= 3 && MODE != 2
	if (ci % 4 != 1) return false;
	p.hs.push_back(h); p.hs[0].p1 = MODE == 1 ? 258 + (int)r(10) : 0; if (named) { H g = p.hs[0]; g.proc = 1; p.hs.push_back(g); }
	Thr a, b; a.proc = 0; b.proc = named; int n = 255 + (int)r(4), hb = named;
	static const int fa[] = {LOCK, SWAIT, 0, RL}, fr[] = {UNLOCK, SREL, 0, RU}, fb[] = {LOCK, SWAIT, 0, WL};
	for (int k = 0; k < n; k++) a.ops.push_back({fa[MODE], 0, 0u, 0, 0, false});
	a.ops.push_back({NAP, 0, 10000, 0, 0, false});
	for (int k = 0; k < n; k++) { a.ops.push_back({fr[MODE], 0, 0, 0, 0, false}); if (k == n - 2) a.ops.push_back({NAP, 0, 10000, 0, 0, false}); }
	for (int k = 0; k < 4; k++) { b.ops.push_back({NAP, 0, 6000, 0, 0, false}); b.ops.push_back({fb[MODE], hb, 0u, 0, 0, false}); b.ops.push_back({RELALL, 0, 0, 0, 0, false}); }
	p.th.push_back(a); p.th.push_back(b); return true;
#else
	(void)ci; return false;
#endif
}
static Prog mkprog(Rng &r, size_t ci)
{
	Prog p; p.setup = true; p.fin = true; int nt = 2 + (int)r(MODE == 6 || MODE == 7 ? 2 : 3); int nproc = 1;
#if MODE <= 5
	int no = r(5) ? 1 : 2; std::vector<std::vector<int>> hof; bool cre = false; (void)cre;
	for (int o = 0; o < no; o++)
	{
		int kind = MODE <= 3 ? MODE : (int)((ci + (size_t)o) % 4); bool named = r(3) == 0; H h; h.kind = kind; h.never = false; h.p1 = h.p2 = 0;
		static const int big[] = {127, 128, 255, 256, 257, 65535, 65536, 1000000, 2147483647};
		if (kind == SE) h.p1 = r(8) ? 1 + (int)r(3) : r(3) ? big[r(9)] : 0; if (kind == EV) { h.p1 = (int)r(2); h.p2 = (int)r(4) == 0; }
		h.name = named ? 1 + (int)r(8) : 0; if (named && o) { h.name = 1 + (p.hs[0].name + (int)r(6)) % 8; }
		int nh = named ? 1 + (int)r(3) : 1; std::vector<int> hs;
		for (int k = 0; k < nh; k++) { h.proc = named ? (int)r(3) : 0; if (h.proc >= nproc) nproc = h.proc + 1; hs.push_back((int)p.hs.size()); p.hs.push_back(h); }
		hof.push_back(hs);
	}
	if (r(8) == 0) { H h = p.hs[0]; h.never = true; p.hs.push_back(h); }
	for (int t = 0; t < nt; t++)
	{
		Thr th; int h0 = (int)r(p.hs.size()); th.proc = p.hs[(size_t)h0].proc;
		std::vector<int> mine; for (size_t h = 0; h < p.hs.size(); h++) if (p.hs[h].proc == th.proc) mine.push_back((int)h);
		int n = 2 + (int)r(4);
		if (r(3) == 0) { Op o = {NAP, 0, napval(r), 0, 0, false}; th.ops.push_back(o); }
		for (int k = 0; k < n; k++)
		{
			int h = mine[r(mine.size())]; int kind = p.hs[(size_t)h].kind; Op o = {0, h, waitval(r), 0, 0, false}; int q = (int)r(10); o.b = r(3) ? 0 : 1 + (int)r(2);
			if (kind == MU) o.f = q < 5 ? LOCK : q < 9 ? UNLOCK : UNLOCKALL;
			else if (kind == SE) { o.f = q < 5 ? SWAIT : SREL; o.a = r(6) == 0 || (MODE == 5 && r(2)); }
			else if (kind == EV) o.f = q < 5 ? EWAIT : q < 8 ? FIRE : RESET;
			else { o.f = q < 3 ? RL : q < 6 ? WL : q < 8 ? RU : WU; o.a = r(12) == 0; }
			if (MODE == 4 && (o.f == LOCK || o.f == SWAIT || o.f == EWAIT) && o.w && o.w != INFINITE && r(8) == 0) o.fault = true;
			th.ops.push_back(o);
			if (r(4) == 0 || (MODE == 4 && r(2))) { Op z = {NAP, 0, napval(r), 0, 0, false}; th.ops.push_back(z); }
		}
		if (r(5)) { Op o = {RELALL, 0, 0, 0, 0, false}; th.ops.push_back(o); }
		p.th.push_back(th);
	}
#else
	// names: every thread owns one or two handles and creates, uses, re-creates and destroys them
	p.setup = false; static const int sz0[] = {8, 8, 8, 4096, 5000, 65544}; int size0 = sz0[r(6)]; (void)size0; int nn = 1 + (int)r(2); int nm[2] = {1 + (int)r(8), 0}; nm[1] = 1 + (nm[0] + (int)r(6)) % 8; int kinds[2] = {MODE == 7 ? SM : (int)r(4), MODE == 7 ? SM : (int)r(4)};
	// names that begin with digits, with sizes that begin like the other size and end in that digit
	bool chain = MODE == 7 && r(8) == 0, calm = MODE == 6 && r(3) == 0; int chd = (int)r(3), chs = r(3) ? 12 : r(2) ? 4 : 16; (void)chd; (void)chs; (void)chain;
	if (calm) { nn = 1; kinds[1] = kinds[0]; nt = 3; }
	for (int t = 0; t < nt; t++)
	{
		Thr th; th.proc = t % 3; int nh = calm ? 1 : 1 + (int)r(2); std::vector<int> mine;
		for (int k = 0; k < nh; k++)
		{
			H h; h.never = false; int w = (int)r(2) < 1 ? 0 : (int)r((size_t)nn); h.kind = kinds[r(3) ? 0 : 1]; h.proc = th.proc; h.name = (MODE == 6 && r(8) == 0) ? 0 : nm[w]; h.p1 = h.p2 = 0;
			if (h.kind == SE) h.p1 = 1 + (int)r(3); if (h.kind == EV) { h.p1 = (int)r(2); h.p2 = (int)r(2); } if (h.kind == SM) { static const int sz[] = {4, 8, 12, 256, 264, 4092, 4096, 8192, 10000, 65544, 69632, 70000}; h.p1 = r(4) ? size0 : r(4) ? sz[r(12)] : size0 > 65536 ? size0 - 65536 : size0 + (r(2) ? 65536 : 256); }
			if (chain) { static const int dg[] = {8, 0, 4}; bool lo = r(2); h.name = lo ? 9 + chd : 1; h.p1 = lo ? chs : (chs + 48) * 10 + dg[chd] - 48; if (chs == 16) h.p1 = lo ? 16 : 160 + dg[chd]; }
			mine.push_back((int)p.hs.size()); p.hs.push_back(h);
		}
		int n = 3 + (int)r(4);
		for (int k = 0; k < n; k++)
		{
			int h = mine[r(mine.size())]; int kind = p.hs[(size_t)h].kind; Op o = {0, h, r(3) ? 0u : 5u, 0, 0, false}; int q = (int)r(10);
			if (k == 0 || q < 3) { o.f = CREATE; o.fault = MODE == 6 && r(20) == 0; }
			else if (q < 5) o.f = DESTROY;
			else if (kind == MU) o.f = q < 8 ? LOCK : UNLOCK;
			else if (kind == SE) { o.f = q < 8 ? SWAIT : SREL; o.a = r(3) == 0; }
			else if (kind == EV) o.f = q < 8 ? EWAIT : q < 9 ? FIRE : RESET;
			else if (kind == RW) o.f = q < 6 ? RL : q < 8 ? WL : q < 9 ? RU : WU;
			else { o.f = q < 8 ? PEEK : POKE; o.a = offs(r, p.hs[(size_t)h].p1); o.b = 1 + (int)r(5); }
			th.ops.push_back(o);
			if (kind == SM && o.f == CREATE) { Op z = o; z.f = PEEK; z.fault = false; z.a = offs(r, p.hs[(size_t)h].p1); th.ops.push_back(z); if (r(2)) { z.f = POKE; z.b = 1 + (int)r(5); th.ops.push_back(z); } }
		}
		if (r(4)) { Op o = {RELALL, 0, 0, 0, 0, false}; th.ops.push_back(o); }
		p.th.push_back(th);
	}
#endif
	return p;
}
// the first cases are small fixed shapes, explored systematically
static Prog small(size_t ci, Rng &r, bool &ok)
{
	Prog p; p.setup = true; p.fin = true; ok = true; int kind = MODE <= 3 ? MODE : (int)(ci % 4); size_t v = MODE <= 3 ? ci : ci / 4;
	H h = {kind, 0, (int)(v % 3 == 2 ? 1 + r(8) : 0), 0, 0, false}; if (kind == SE) h.p1 = 1 + (int)(v % 2); if (kind == EV) { h.p1 = (int)(v % 2); h.p2 = (int)(v / 2 % 2); }
	int nh = h.name ? 2 : 1; for (int k = 0; k < nh; k++) { h.proc = k; p.hs.push_back(h); }
	int nt = v % 4 == 3 ? 3 : 2;
	for (int t = 0; t < nt; t++)
	{
		Thr th; int hh = t % nh; th.proc = hh; int n = nt == 3 ? 2 : 2 + (int)r(2);
		for (int k = 0; k < n; k++)
		{
			Op o = {0, hh, r(3) == 0 ? 5u : r(4) == 0 ? 0u : (uint32_t)INFINITE, 1, 0, false}; int q = (int)r(2);
			if (kind == MU) o.f = k == 0 ? LOCK : k == 1 ? UNLOCK : q ? LOCK : UNLOCK;
			else if (kind == SE) o.f = q ? SWAIT : SREL;
			else if (kind == EV) o.f = q ? EWAIT : r(3) ? FIRE : RESET;
			else { o.f = k == 0 ? (q ? RL : WL) : q ? WU : RU; if (o.f == RU) o.a = 0; }
			th.ops.push_back(o);
		}
		Op z = {RELALL, 0, 0, 0, 0, false}; th.ops.push_back(z);
		p.th.push_back(th);
	}
	return p;
}
size_t vh_ncases(bool th) { return th ? 6000 : (MODE >= 6 ? 400 : 720); }
void vh_case(size_t i, Rng &r)
{
	vh_timeout = 60; alarm(60);
	bool ok = false; bool sm = MODE <= 5 && i % 3 == 0; Prog p; bool sp = i % 20 == 1 && special(i / 20, r, p); if (!sp) { p = Prog(); p = sm ? small(i / 3, r, ok) : mkprog(r, i); } bool deep = sp && (p.th[0].ops.size() > 200 || p.hs.size() > 8 || p.th.size() > 5);
	std::unordered_set<std::string> seen; size_t emitted = 0;
	auto emit = [&] { std::string t(vh_sh->buf, vh_sh->committed); if (seen.insert(t).second && emitted < (vh_thorough ? 40u : 24u)) { emitted++; vh_flush_trace(i); } else vh_sh->committed = vh_sh->len = 0; };
	rng = &r;
	int nrand = deep ? 2 : vh_thorough ? 300 : 100;
	for (int k = 0; k < nrand; k++)
	{
		static const int ps[] = {2, 3, 5, 12}, pm[] = {0, 0, MODE >= 6 ? 4 : 8, 40};
		dfs = false; vbase = r(4) ? 1700000000000000000ull + (uint64_t)r(1000000) * 1000 : (uint64_t)(4294967296ull * (396 + r(2) * 604)) * 1000000ull - (uint64_t)r(25000) * 1000; if (deep) vbase = 1700000000000000000ull; p_sync = ps[r(4)]; p_mem = pm[r(4)]; p_spur = r(4) ? 0 : 60; p_lag = 0;
#if MODE == 4
		if (r(4) == 0) p_lag = 8 + 30 * (int)r(3);
		// a limit that ends on a full second exactly
		if (r(6) == 0) { static const int w[] = {1, 2, 5, 10, 20, 999}; vbase = 1700000000000000000ull + (uint64_t)(1000 - w[r(6)]) * 1000000ull - 1000; }
#endif
		onerun(p); emit();
	}
	if (sm)
	{
		dfs = true; path.clear(); vbase = 1700000000000000000ull + (uint64_t)r(1000000) * 1000; maxpreempt = 2; p_mem = 0; emitted = 0;
		int n = 0, lim = vh_thorough ? 20000 : 2500;
		do { ppos = 0; onerun(p); emit(); } while (++n < lim && nextpath());
		dfs = false;
	}
}
