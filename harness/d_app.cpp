// Drives UTF8::AppInfo and Environment::AppInfo with every environment and buffer size.
#include "vh.h"
#include "shim_app.h"
#undef getenv
#undef getpwuid
#undef readlink
#include "utf8/utf8_appinfo.h"
#include "environment/environment_appinfo.h"
#include <pthread.h>
#include <sys/time.h>
using namespace CubicleSoft;

static std::string home, pwdir, link_; static bool hashome, haspw, haspwdir, haslink;
extern "C" char *vha_getenv(const char *n) { return strcmp(n, "HOME") ? ::getenv(n) : hashome ? (char *)home.c_str() : NULL; }
extern "C" struct passwd *vha_getpwuid(uid_t) { static struct passwd p; if (!haspw) return NULL; memset(&p, 0, sizeof p); p.pw_name = (char *)"u"; p.pw_dir = haspwdir ? (char *)pwdir.c_str() : NULL; return &p; }
extern "C" ssize_t vha_readlink(const char *p, char *b, size_t n)
{
	if (strcmp(p, "/proc/self/exe")) return ::readlink(p, b, n);
	if (!haslink) { errno = ENOENT; return -1; }
	if (!n) { errno = EINVAL; return -1; }
	if (n > link_.size()) n = link_.size();
	memcpy(b, link_.data(), n); return (ssize_t)n;
}
size_t vh_ncases(bool th) { return th ? 3000 : 500; }
static std::string word(Rng &r, int lo, int hi, const char *abc) { std::string s; int n = r.range(lo, hi); size_t m = strlen(abc); while (n--) s += abc[r(m)]; return s; }

static std::string root;
static void mk(const std::string &d) { mkdir(d.c_str(), 0755); }
static void *whoami(void *p) { bool ok = pthread_equal(Environment::AppInfo::GetCurrentThreadID(), pthread_self()); *(bool *)p = ok; return NULL; }

static void query(Rng &r, const char *op, int kind, size_t size, bool happ, const std::string &app, bool harg, const std::string &arg, const std::string &real, bool hreal)
{
	char *b = (char *)malloc(size ? size : 1); memset(b, 'Z', size ? size : 1); size_t z = size; bool ok;
	vh_pend("%s size %zu app %s home %s arg %s", op, size, happ ? app.c_str() : "-", hashome ? home.c_str() : "-", harg ? arg.c_str() : "-");
	const char *a = happ ? app.c_str() : NULL, *g = harg ? arg.c_str() : NULL;
	if (kind == 0) ok = UTF8::AppInfo::GetSystemAppStorageDir(b, z, a);
	else if (kind == 1) ok = UTF8::AppInfo::GetCurrentUserAppStorageDir(b, z, a);
	else if (kind == 2) ok = UTF8::AppInfo::GetTempStorageDir(b, z);
	else if (kind == 3) ok = UTF8::AppInfo::GetExecutableFilename(b, z, g);
	else ok = UTF8::AppInfo::GetExecutablePath(b, z, g);
	{
		E e(op); e.z("size", size).t("ret", ok).z("z", z).t("happ", happ).b("app", app).t("hreal", hreal).b("real", real);
		size_t n = 0; while (n < size && b[n]) n++;
		e.t("nul", n < size).b("out", b, ok ? n : 0);
	}
	free(b);
}
void vh_case(size_t i, Rng &r)
{
	root = std::string(VH_SCRATCH) + "/app" + std::to_string(getpid()); mk(root); mk(root + "/b"); mk(root + "/b/c"); mk(root + "/b/c d");
	std::string f[4] = {root + "/b/exe", root + "/b/c/e", root + "/b/c d/executable.bin", root + "/x"};
	for (auto &x : f) { int d = open(x.c_str(), O_CREAT | O_WRONLY, 0755); if (d >= 0) close(d); }
	symlink("b/c/e", (root + "/ln").c_str());
	for (int k = 0; k < 24; k++)
	{
		hashome = r.chance(3, 4); home = r.chance(1, 8) ? "" : "/" + word(r, 0, r.chance(1, 12) ? 2500 : 14, "ab/.x"); haspw = r.chance(3, 4); haspwdir = r.chance(3, 4); pwdir = "/" + word(r, 0, 10, "pw/");
		bool happ = r.chance(3, 4); std::string app = r.chance(1, 8) ? "" : word(r, 1, r.chance(1, 12) ? 2500 : 10, "app/.\xc3\xa9");
		{ E e("env"); e.t("hhome", hashome).b("home", home).t("hpw", haspw && haspwdir).b("pw", pwdir); }
		size_t n = 9 + app.size() + 2 + (r(2) ? r(6) : 0); if (r(3) == 0) n = r(40);
		query(r, "system", 0, r.chance(1, 3) ? n - (n > 2 ? r(3) : 0) : n, happ, app, false, "", "", false);
		std::string base = hashome ? home : pwdir; n = base.size() + (happ ? 2 + app.size() : 1) + 1; n = r(3) ? n + r(5) - (n > 3 ? r(4) : 0) : r(40);
		query(r, "user", 1, n, happ, app, false, "", "", false);
		query(r, "temp", 2, r(12), false, "", false, "", "", false);
		// the executable
		haslink = r.chance(3, 4); link_ = f[r(4)]; if (r.chance(1, 10)) link_ += " (deleted)";
		bool harg = r.chance(3, 4); std::string arg = r.chance(1, 6) ? root + "/nothere" : r.chance(1, 3) ? root + "/ln" : r(2) ? root + "/b/./../b/exe" : f[r(4)];
		const char *want = haslink ? link_.c_str() : harg ? arg.c_str() : NULL; char *rp = want ? realpath(want, NULL) : NULL;
		std::string real = rp ? rp : ""; bool hreal = rp != NULL; free(rp);
		std::string wn = want ? want : ""; size_t full = wn.size() > real.size() ? wn.size() : real.size();
		// the paths are long: events carry them relative to the scratch folder's name length only
		for (int q = 3; q <= 4; q++)
		{
			size_t sz = r.chance(1, 6) ? r(full + 8) : r(4) == 0 ? (size_t)(wn.rfind('/') == std::string::npos ? 3 : wn.rfind('/')) + r(3) : full + r(5) - (full > 2 ? r(3) : 0);
			query(r, q == 3 ? "exe" : "exedir", q, sz, false, "", harg, arg, real, hreal);
			if (r.chance(1, 2)) { size_t cut = 1 + r(full ? full : 1); query(r, q == 3 ? "exe" : "exedir", q, cut, false, "", harg, arg, real, hreal); }
		}
	}
	struct timeval a, b; gettimeofday(&a, NULL); uint64_t t = Environment::AppInfo::GetUnixMicrosecondTime(); gettimeofday(&b, NULL);
	bool th = false; pthread_t p; pthread_create(&p, NULL, whoami, &th); pthread_join(p, NULL);
	pid_t ch = fork(); if (!ch) _exit(Environment::AppInfo::GetCurrentProcessID() == getpid() && Environment::AppInfo::GetCurrentProcessID() != getppid() ? 0 : 1);
	int st; waitpid(ch, &st, 0);
	{ E e("ids"); e.t("pid", Environment::AppInfo::GetCurrentProcessID() == getpid() && st == 0).t("thread", th && pthread_equal(Environment::AppInfo::GetCurrentThreadID(), pthread_self()));
	  e.w("before", (uint64_t)a.tv_sec * 1000000 + a.tv_usec).w("now", t).w("after", (uint64_t)b.tv_sec * 1000000 + b.tv_usec); }
	for (auto &x : f) unlink(x.c_str()); unlink((root + "/ln").c_str());
	rmdir((root + "/b/c d").c_str()); rmdir((root + "/b/c").c_str()); rmdir((root + "/b").c_str()); rmdir(root.c_str());
}
