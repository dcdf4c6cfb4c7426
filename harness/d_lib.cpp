// Drives SharedLib over two test libraries and a missing one.
#include "vh.h"
#include "templates/shared_lib.h"
#include <memory>
using namespace CubicleSoft::SharedLib;
struct Sink { int n; int v[64]; };
struct Pt { int x; double y; char c; };
static Sink sink;
static std::string L[4] = {std::string(VH_SCRATCH) + "/librec1.so", std::string(VH_SCRATCH) + "/librec2.so", std::string(VH_SCRATCH) + "/nolib.so", std::string(VH_SCRATCH) + "/librec1.so"};
static bool loaded(int k) { void *h = dlopen(L[k].c_str(), RTLD_LAZY | RTLD_NOLOAD); if (h) { dlclose(h); return true; } return false; }
static void arm() { for (int k = 0; k < 2; k++) { void *h = dlopen(L[k].c_str(), RTLD_LAZY | RTLD_NOLOAD); if (h) { ((void (*)(Sink *))dlsym(h, "set_sink"))(&sink); dlclose(h); } } }
static const char *names[] = {"missing", "f_none", "toascii", "f_mix", "f_dbl", "f_ptr", "f_many", "f_struct", "f_bool", "f_only2", "no_such", "v_none", "v_int", "v_mix"};

struct Fn { FunctionUtil *f; int mod, name; };
struct Mod { ModuleUtil *m; int lib; std::vector<Fn> fns; };

size_t vh_ncases(bool th) { return th ? 3000 : 600; }

// The library is not loaded before the first call: calls made before the sink is set record nothing,
// so the harness pins the library only while it hands the sink over.
static std::vector<int> args; static long long rv; static bool ok; static std::vector<int> extra;
template <class Go> static void docall(int name, Rng &r, Go go) { (void)name; (void)r; (void)go; }

#define SMALL ((int)r(4000) - 2000)
// CALL(kind): expands the call for the wanted function through F (function object) or by name
#define CALLS(RC, VC) \
	switch (name) { \
	case 1: { int x = -99; args = {}; ok = RC(x); rv = x; break; } \
	case 9: case 10: case 0: case 2: { int x = -99, a = SMALL; args = {a}; ok = RC(x, a); rv = x; break; } \
	case 3: { long long x = -99; signed char a = (signed char)(r(256) - 128); short b = (short)SMALL; int c = SMALL; long long d = SMALL; args = {a, b, c, (int)d}; ok = RC(x, a, b, c, d); rv = x; break; } \
	case 4: { double x = -99; int a4 = SMALL, b4 = SMALL, c = SMALL; double a = a4 / 4.0; (void)b4; args = {a4, b4, c}; double bf = b4 / 4.0; float fb = (float)bf; ok = RC(x, a, fb, c); rv = (long long)(x * 4); break; } \
	case 5: { int x = -99, o = -77; std::string s; int n = (int)r(6); while (n--) s += (char)(1 + r(255)); int t = 0; for (size_t k = 0; k < s.size(); k++) t += (int)(k + 1) * (unsigned char)s[k]; args = {t, (int)s.size()}; ok = RC(x, s.c_str(), &o); rv = x; extra = {o}; break; } \
	case 6: { int x = -99; int v[10]; args.clear(); for (int &q : v) { q = SMALL; args.push_back(q); } ok = RC(x, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]); rv = x; break; } \
	case 7: { Pt x = {-99, 0, 0}; int y4 = SMALL; Pt p = {SMALL, y4 / 4.0, (char)r(100)}; unsigned char k = (unsigned char)r(256); args = {p.x, y4, p.c, k}; ok = RC(x, p, k); rv = x.x; extra = {(int)(x.y * 4), x.c}; break; } \
	case 8: { bool x = false; bool a = r(2), b = r(2); args = {a, b}; ok = RC(x, a, b); rv = x; break; } \
	case 11: { args = {}; ok = VC(); rv = 0; break; } \
	case 12: { int a = SMALL; args = {a}; ok = VC2(a); rv = 0; break; } \
	case 13: { long long a = SMALL; int b4 = SMALL; unsigned short c = (unsigned short)r(65536); args = {(int)a, b4, (int)c}; ok = VC2(a, b4 / 4.0, c); rv = 0; break; } \
	}

static void state() {}
static void log(const char *op, int id, int lib, int name)
{
	E e(op); e.i("id", id).i("lib", lib).i("name", name).a("args", args).t("ret", ok).i("val", rv).a("extra", extra);
	e.a("rec", std::vector<int>(sink.v, sink.v + sink.n)); e.t("l1", loaded(0)).t("l2", loaded(1));
}
void vh_case(size_t i, Rng &r)
{
	vh_timeout = 20;
	std::map<int, Mod> mods; int nid = 1;
	// handing over the sink needs the library: one warm-up dlopen in a child would not persist, so arm after the first load
	for (int step = 0; step < 40; step++)
	{
		args.clear(); extra.clear(); rv = 0; ok = true; sink.n = 0;
		int what = r(10);
		if (mods.empty() || what == 0)
		{
			if (mods.size() >= 5) continue;
			int lib = (int)r(3); Mod m; m.m = new ModuleUtil(L[lib].c_str()); m.lib = lib; mods[nid] = m;
			{ E e("mod"); e.i("id", nid).i("lib", lib + 1).t("l1", loaded(0)).t("l2", loaded(1)); }
			nid++;
		}
		else if (what == 1)
		{
			auto it = mods.begin(); std::advance(it, r(mods.size()));
			for (auto &f : it->second.fns) delete f.f;
			vh_pend("delmod"); delete it->second.m; int id = it->first; mods.erase(it);
			{ E e("delmod"); e.i("id", id).t("l1", loaded(0)).t("l2", loaded(1)); }
		}
		else if (what == 2)
		{
			auto it = mods.begin(); std::advance(it, r(mods.size()));
			bool got = it->second.m->Load() != NULL; arm();
			{ E e("load"); e.i("id", it->first).t("ret", got).t("l1", loaded(0)).t("l2", loaded(1)); }
		}
		else if (what == 3)
		{
			int lib = (int)r(3), name = r.chance(1, 5) ? 10 : 1 + (int)r(13); const char *fn = L[lib].c_str(); arm();
			bool was = lib < 2 && loaded(lib);
			vh_pend("once %s %s", fn, names[name]);
			#define RC(x, ...) CallOnce(fn, names[name], x, ##__VA_ARGS__)
			#define VC() CallOnceVoid(fn, names[name])
			#define VC2(...) CallOnceVoid(fn, names[name], __VA_ARGS__)
			CALLS(RC, VC)
			#undef RC
			#undef VC
			#undef VC2
			log(was ? "once" : "oncenew", 0, lib + 1, name); arm();
		}
		else
		{
			auto it = mods.begin(); std::advance(it, r(mods.size())); Mod &m = it->second;
			if (m.fns.empty() || r.chance(1, 3))
			{
				Fn f; f.name = r.chance(1, 6) ? 10 : 1 + (int)r(13); f.mod = it->first; f.f = new FunctionUtil(*m.m, names[f.name]); m.fns.push_back(f);
			}
			Fn &f = m.fns[r(m.fns.size())]; int name = f.name; FunctionUtil &F = *f.f; arm();
			bool was = m.lib < 2 && loaded(m.lib);
			vh_pend("call %s of lib %d", names[name], m.lib);
			#define RC(x, ...) Call(F, x, ##__VA_ARGS__)
			#define VC() CallVoid(F)
			#define VC2(...) CallVoid(F, __VA_ARGS__)
			CALLS(RC, VC)
			#undef RC
			#undef VC
			#undef VC2
			log(was ? "call" : "callnew", it->first, m.lib + 1, name); arm();
		}
	}
	for (auto &m : mods) { for (auto &f : m.second.fns) delete f.f; delete m.second.m; }
	{ E e("end"); e.t("l1", loaded(0)).t("l2", loaded(1)); }
	// leave the process as it was found
	for (int k = 0; k < 2; k++) for (int g = 0; g < 1000 && loaded(k); g++) { void *h = dlopen(L[k].c_str(), RTLD_LAZY); dlclose(h); dlclose(h); }
}
