#include <malloc.h>
// Files and directories.  Runs as an unprivileged user inside a scratch folder of its own.
// MODE 0 file handles, 1 faults, 2 line input, 3 path names, 4 trees
#include "vh.h"
#include "utf8/utf8_file_dir.h"
#include <grp.h>
#include <pwd.h>
#include <dirent.h>
#include <errno.h>
#include <utime.h>
#include <deque>
using namespace CubicleSoft::UTF8;
#ifndef MODE
#define MODE 0
#endif
static std::string root;                    // scratch folder
// ------------------------------------------------ system calls of the code under test
static std::deque<int> rq, wq;              // what the next reads/writes do: 0 normal, -1 EINTR, -2 EIO, k > 0: at most k bytes
static bool hard, shortio, seekfail, xdev; static std::vector<std::pair<long, long>> owners;
static bool inside(const char *p, bool parentonly)
{
	char b[PATH_MAX]; std::string s = p;
	while (s.size() > 1 && s.back() == '/') s.pop_back();
	if (!parentonly && realpath(p, b)) return !strncmp(b, root.c_str(), root.size()) && (b[root.size()] == '/' || !b[root.size()]);
	size_t k = s.rfind('/'); std::string d = k == std::string::npos ? "." : k == 0 ? "/" : s.substr(0, k);
	if (!realpath(d.c_str(), b)) return true;               // nothing there: the call fails by itself
	return !strncmp(b, root.c_str(), root.size()) && (b[root.size()] == '/' || !b[root.size()]);
}
static bool escape(const char *what, const char *p, bool parentonly) { if (inside(p, parentonly)) return false; struct stat st; (void)st; { E e("escape"); e.s("what", what); } errno = EACCES; return true; }
extern "C" {
int vf_open(const char *p, int fl, ...)
{
	int mode = 0; va_list ap; va_start(ap, fl); if (fl & O_CREAT) mode = va_arg(ap, int); va_end(ap);
	if ((fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY) if (escape("open", p, false)) return -1;
	return open(p, fl, mode);
}
ssize_t vf_read(int d, void *p, size_t n)
{
	int k = 0; if (!rq.empty()) { k = rq.front(); rq.pop_front(); }
	if (k == -1) { errno = EINTR; return -1; } if (k == -2) { hard = true; errno = EIO; return -1; }
	if (k > 0 && (size_t)k < n) { shortio = true; n = (size_t)k; }
	return read(d, p, n);
}
ssize_t vf_write(int d, const void *p, size_t n)
{
	int k = 0; if (!wq.empty()) { k = wq.front(); wq.pop_front(); }
	if (k == -1) { errno = EINTR; return -1; } if (k == -2) { hard = true; errno = ENOSPC; return -1; }
	if (k > 0 && (size_t)k < n) { shortio = true; n = (size_t)k; }
	return write(d, p, n);
}
off64_t vf_lseek64(int d, off64_t o, int w) { if (seekfail) { hard = true; errno = EINVAL; return -1; } return lseek64(d, o, w); }
int vf_ftruncate(int d, off64_t n) { return ftruncate64(d, n); }
void vf_sync(void) {}
int vf_fsync(int) { return 0; }
int vf_unlink(const char *p) { if (escape("unlink", p, true)) return -1; return unlink(p); }
int vf_remove(const char *p) { if (escape("remove", p, true)) return -1; return remove(p); }
int vf_rmdir(const char *p) { if (escape("rmdir", p, true)) return -1; return rmdir(p); }
int vf_mkdir(const char *p, mode_t m) { struct stat st; if (lstat(p, &st) == 0) { errno = EEXIST; return -1; } if (escape("mkdir", p, true)) return -1; return mkdir(p, m); }
int vf_rename(const char *a, const char *b) { if (escape("rename", a, true) || escape("rename", b, true)) return -1; if (xdev) { errno = EXDEV; return -1; } return rename(a, b); }
int vf_symlink(const char *t, const char *p) { if (escape("symlink", p, true)) return -1; return symlink(t, p); }
int vf_chmod(const char *p, mode_t m) { if (escape("chmod", p, false)) return -1; return chmod(p, m); }
int vf_chown(const char *p, uid_t u, gid_t g) { struct stat st; if (stat(p, &st)) return -1; if (escape("chown", p, false)) return -1; owners.push_back({(long)(int)u, (long)(int)g}); return 0; }
int vf_utime(const char *p, const struct utimbuf *t) { if (escape("utime", p, false)) return -1; return utime(p, t); }
int vf_utimes(const char *p, const struct timeval *t) { if (escape("utimes", p, false)) return -1; return utimes(p, t); }
}
static void wipe(const std::string &d)      // raw removal below the scratch folder
{
	DIR *D = opendir(d.c_str()); if (!D) return;
	while (struct dirent *e = readdir(D)) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; std::string p = d + "/" + e->d_name; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
	closedir(D);
}
static void prepare()
{
	if (root.empty())
	{
		root = std::string(VH_SCRATCH) + "/fs_" + std::to_string(getpid()); mkdir(root.c_str(), 0755);
		if (geteuid() == 0)
		{
			if (chown(root.c_str(), 65534, 65534) || setgroups(0, NULL) || setgid(65534) || setuid(65534)) { fprintf(stderr, "cannot drop privileges\n"); _exit(94); }
		}
		char b[PATH_MAX]; if (!realpath(root.c_str(), b)) _exit(94); root = b;
	}
	umask(022); if (chdir(root.c_str())) _exit(98);
	wipe(root); rq.clear(); wq.clear(); hard = shortio = seekfail = xdev = false; owners.clear();
}
static bool slurp(const std::string &p, std::string &o) { o.clear(); struct stat st; bool shut = !lstat(p.c_str(), &st) && S_ISREG(st.st_mode) && !(st.st_mode & 0400); if (shut) chmod(p.c_str(), st.st_mode | 0400); int d = open(p.c_str(), O_RDONLY | O_NOFOLLOW); if (shut) chmod(p.c_str(), st.st_mode & 07777); if (d < 0) return false; char b[65536]; ssize_t n; while ((n = read(d, b, sizeof b)) > 0) o.append(b, (size_t)n); close(d); return n == 0; }
static void spit(const std::string &p, const std::string &o) { int d = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (d < 0 || write(d, o.data(), o.size()) != (ssize_t)o.size()) _exit(98); close(d); }
static std::string rbytes(Rng &r, size_t n) { std::string s; for (size_t k = 0; k < n; k++) s += (char)(r(9) ? 1 + r(250) : 0); return s; }
static const char *fn[] = {"", "eins", "zw\xc3\xb6lf"};

#if MODE == 0 || MODE == 1
static File *H[4];
static int perms(int n) { struct stat st; return lstat((root + "/" + fn[n]).c_str(), &st) ? -1 : (int)(st.st_mode & 07777); }
static void disk(int n) { std::string s; bool x = slurp(root + "/" + fn[n], s); E e("disk"); e.i("n", n).t("x", x).b("b", s).i("pm", perms(n)); }
static void faults(Rng &r, std::deque<int> &q, bool hardok) { q.clear(); hard = shortio = false; size_t n = r(5); for (size_t k = 0; k < n; k++) { int z = (int)r(6); q.push_back(z < 2 ? -1 : z < 4 ? 1 + (int)r(4) : z == 4 && hardok ? -2 : 0); } }
static std::vector<int> rle(const std::string &s) { std::vector<int> o; for (size_t i = 0; i < s.size();) { size_t j = i; while (j < s.size() && s[j] == s[i]) j++; o.push_back((unsigned char)s[i]); o.push_back((int)(j - i)); i = j; } return o; }
static std::string runs(Rng &r, size_t n) { std::string s; char c = 'a'; while (s.size() < n) { s.append(1 + r(r(3) ? 3000 : 20), c); c = (char)(c == 'z' ? 'a' : c + 1); } s.resize(n); return s; }
static void bigcase(Rng &r);
static void sparse(Rng &r);
static File *fresh(int d) { void *m = ::operator new(sizeof(File)); for (size_t k = 0; k + sizeof d <= sizeof(File); k += sizeof d) memcpy((char *)m + k, &d, sizeof d); return new (m) File(); }
static void handles(Rng &r)
{
	{
		// a handle that is never opened refuses everything and owns no descriptor, whatever its memory held before
		int d = dup(2); File *f = fresh(d); char z[2] = {0, 0}; size_t g = 0; bool io = f->IsOpen(), rd = f->Read((uint8_t *)z, 1, g), wr = f->Write((const uint8_t *)z, 1, g), sk = f->Seek(File::SeekStart, 0), up = f->UpdateMaxPos(); delete f;
		E e("fresh"); e.t("io", io).t("rd", rd).t("wr", wr).t("sk", sk).t("up", up).t("keep", fcntl(d, F_GETFD) != -1); close(d);
	}
	for (int h = 1; h <= 3; h++) H[h] = fresh(2);
	int app[4] = {0, 0, 0, 0}, at[4] = {0, 0, 0, 0};
	for (int n = 1; n <= 2; n++) if (r(2)) { spit(root + "/" + fn[n], rbytes(r, r(14))); if (r(4) == 0) { static const int m[] = {0, 0400, 0200, 0600, 0466, 0755, 0277}; chmod((root + "/" + fn[n]).c_str(), (mode_t)m[r(7)]); } }
	for (int n = 1; n <= 2; n++) { std::string s; bool x = slurp(root + "/" + fn[n], s); E e("init"); e.i("n", n).t("x", x).b("b", s).i("pm", perms(n)); }
	int len = 8 + (int)r(16);
	for (int k = 0; k < len; k++)
	{
		int h = 1 + (int)r(3), q = (int)r(MODE == 1 ? 16 : 20); File &f = *H[h];
		bool need = r(4) != 0; if (need) for (int z = 0; z < 3 && !H[h]->IsOpen() && k > 1; z++) h = 1 + h % 3; File &g = *H[h]; (void)f;
		if (q < 3 || (k < 2))
		{
			int n = 1 + (int)r(2), acc = r(20) ? (int)r(3) : 3; if (r(2)) acc = 2; bool cr = r(3) != 0, ex = cr && r(6) == 0, tr = acc != 0 && acc != 3 && r(4) == 0, ap = r(6) == 0; int sh = r(3) ? 0 : (int)r(4);
			int fl = (acc == 0 ? O_RDONLY : acc == 1 ? O_WRONLY : acc == 2 ? O_RDWR : O_ACCMODE) | (cr ? O_CREAT : 0) | (ex ? O_EXCL : 0) | (tr ? O_TRUNC : 0) | (ap ? O_APPEND : 0);
			static const int ms[] = {0644, 0666, 0600, 0777, 0, 0400, 0200, 04755, 01622, 0137}; int mode = ms[r(3) ? r(3) : r(10)], mask = r(4) ? 022 : r(2) ? 0 : r(2) ? 077 : (int)r(512); bool dflt = mode == 0644 && sh == 0 && r(2); umask((mode_t)mask);
			vh_pend("open"); bool x = dflt ? g.Open(fn[n], fl) : g.Open(fn[n], fl, (File::ShareType)sh, mode); umask(022); if (dflt) mode = 0666; app[h] = ap; at[h] = n;
			E e("open"); e.i("h", h).i("n", n).i("acc", acc).t("cr", cr).t("ex", ex).t("tr", tr).t("app", ap).i("sh", sh).i("mode", mode).i("mask", mask).t("r", x).t("io", g.IsOpen()).z("pos", (size_t)g.GetCurrPos()).z("max", (size_t)g.GetMaxPos());
			if (e.i("z", 0), true) {}
		}
		else if (q < 7)
		{
			size_t n = r(5) ? r(8) : r(30), got = 777; std::string b(n, '\x55');
			if (MODE == 1) faults(r, rq, true);
			vh_pend("read"); bool x = g.Read((uint8_t *)(b.empty() ? NULL : &b[0]), n, got); rq.clear();
			E e("read"); e.i("h", h).z("n", n).t("r", x).z("got", got).b("b", b.substr(0, got == 777 ? 0 : got > n ? n : got)).z("pos", (size_t)g.GetCurrPos()).z("max", (size_t)g.GetMaxPos()).t("hard", hard).t("short", shortio);
			hard = shortio = false;
		}
		else if (q < 11)
		{
			// appending at a position other than the end is not specified
			if (g.IsOpen() && app[h]) { std::string s; struct stat st; if (stat((root + "/" + fn[at[h]]).c_str(), &st) || (size_t)st.st_size != g.GetCurrPos() || r(8) == 0) continue; bool other = false; for (int z = 1; z <= 3; z++) if (z != h && H[z]->IsOpen() && at[z] == at[h]) other = true; if (other) continue; }
			std::string b = rbytes(r, r(9)); bool z = r(3) == 0; if (z) for (auto &c : b) if (!c) c = 'q'; size_t got = 777;
			if (MODE == 1) faults(r, wq, true);
			vh_pend("write"); bool x = z ? g.Write(b.c_str(), got) : g.Write((const uint8_t *)b.data(), b.size(), got); wq.clear();
			{ E e("write"); e.i("h", h).b("b", b).t("r", x).z("got", got).z("pos", (size_t)g.GetCurrPos()).z("max", (size_t)g.GetMaxPos()).t("hard", hard).t("short", shortio); }
			hard = shortio = false;
			if (at[h]) disk(at[h]);
		}
		else if (q < 15)
		{
			int w = (int)r(4); static const uint64_t big[] = {0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x7FFFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFF8ull}; uint64_t p = r(6) ? r(20) : big[r(7)];
			seekfail = MODE == 1 && r(6) == 0; hard = false;
			vh_pend("seek"); bool x = g.Seek((File::SeekType)w, p); seekfail = false;
			E e("seek"); e.i("h", h).i("w", w).z("p", (size_t)p).t("r", x).z("pos", (size_t)g.GetCurrPos()).z("max", (size_t)g.GetMaxPos()).t("hard", hard);
			hard = false;
		}
		else if (q < 16) { bool x = g.UpdateMaxPos(); E e("upd"); e.i("h", h).t("r", x).z("max", (size_t)g.GetMaxPos()); }
		else if (q < 17) { bool x = g.Flush(); E e("flush"); e.i("h", h).t("r", x); }
		else if (q < 19) { bool x = g.Close(); E e("close"); e.i("h", h).t("r", x).t("io", g.IsOpen()); }
		else { int n = 1 + (int)r(2); bool x = File::Delete(fn[n]); { E e("delete"); e.i("n", n).t("r", x); } disk(n); }
	}
	for (int h = 1; h <= 3; h++) delete H[h];
	for (int n = 1; n <= 2; n++) disk(n);
	int nfd = 0; DIR *D = opendir("/proc/self/fd"); if (D) { while (struct dirent *e = readdir(D)) { char l[4096]; std::string p = std::string("/proc/self/fd/") + e->d_name; ssize_t z = readlink(p.c_str(), l, sizeof l); if (z > 0 && !strncmp(l, root.c_str(), root.size()) && (size_t)z >= root.size()) nfd++; } closedir(D); }
	{ E e("end"); e.i("fds", nfd); }
}
static void sparse(Rng &r)
{
	static const uint64_t sizes[] = {0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x100000007ull, 0x180000005ull, 5000000000ull, 0x200000000ull, 0x10000000000ull, 0x2FFFFFFFFFFull};
	uint64_t size = sizes[r(10)]; std::string p = root + "/sparse"; int d = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (d < 0 || ftruncate64(d, (off64_t)size)) { if (d >= 0) close(d); unlink(p.c_str()); size = 0; } else close(d);
	if (!size) { E e("end"); e.i("fds", 0); return; }
	File f; bool x = f.Open("sparse", O_RDWR); { E e("bopen"); e.w("size", size).t("r", x).w("pos", f.GetCurrPos()).w("max", f.GetMaxPos()); }
	int len = 6 + (int)r(10);
	for (int k = 0; k < len; k++)
	{
		int q = (int)r(6);
		if (q < 3)
		{
			int w = (int)r(4); uint64_t s = 0; switch (r(7)) { case 0: s = r(10); break; case 1: s = size - r(10); break; case 2: s = sizes[r(10)] + r(3); break; case 3: s = 0xFFFFFFFFFFFFFFFFull - r(3); break; case 4: s = 0x7FFFFFFFFFFFFFFFull + r(3); break; case 5: s = size + r(20); break; default: s = size / 2 + r(3); }
			bool x = f.Seek((File::SeekType)w, s); E e("bseek"); e.i("w", w).w("p", s).t("r", x).w("pos", f.GetCurrPos()).w("max", f.GetMaxPos());
		}
		else if (q < 5) { std::string b = rbytes(r, 1 + r(4)); size_t g = 0; bool x = f.Write((const uint8_t *)b.data(), b.size(), g); E e("bwrite"); e.b("b", b).t("r", x).z("got", g).w("pos", f.GetCurrPos()).w("max", f.GetMaxPos()); }
		else { size_t n = 1 + r(5), g = 0; std::string b(n, 'U'); if (r(2)) { uint64_t s = r(6); bool x = f.Seek(File::SeekBackward, s); E e("bseek"); e.i("w", 3).w("p", s).t("r", x).w("pos", f.GetCurrPos()).w("max", f.GetMaxPos()); } bool x = f.Read((uint8_t *)&b[0], n, g); E e("bread"); e.z("n", n).t("r", x).b("b", b.substr(0, g > n ? n : g)).z("got", g).w("pos", f.GetCurrPos()).w("max", f.GetMaxPos()); }
	}
	f.Close(); struct stat st; if (stat(p.c_str(), &st)) st.st_size = 0; { E e("bsize"); e.w("size", (uint64_t)st.st_size); }
	unlink(p.c_str());
}
static char *t_mgr; static int alive; static void *amalloc(void *m, size_t n) { if (m != &t_mgr) abort(); alive++; return malloc(n); } static void afree(void *m, void *p) { if (m != &t_mgr) abort(); if (p) alive--; free(p); }
static void bigcase(Rng &r)
{
	for (int k = 0; k < 3; k++)
	{
		static const size_t szs[] = {0, 1, 100, 8191, 8192, 8193, 16384, 65536, 16383, 150000, 65535, 65537, 262144, 262145, 300000};
		std::string a = runs(r, r(40) == 0 ? 1048576 + r(100000) : r(3) ? szs[r(15)] : r(30000)), b = r(2) ? runs(r, r(2) ? szs[r(15)] : r(30000)) : "", a2, b2, res; bool hasb = r(3) != 0; wipe(root); spit(root + "/a", a); if (hasb) spit(root + "/b", b); chmod((root + "/a").c_str(), r(2) ? 0644 : 0600);
		rq.clear(); wq.clear(); hard = shortio = false; int q = (int)r(5); bool h = r(2) == 0;
		for (size_t z = r(8); z; z--) { int c = (int)r(8); rq.push_back(c < 2 ? -1 : c < 5 ? 1 + (int)r(9000) : c == 5 && h ? -2 : 0); }
		if (q < 3) for (size_t z = r(8); z; z--) { int c = (int)r(8); wq.push_back(c < 2 ? -1 : c < 5 ? 1 + (int)r(9000) : c == 5 && h ? -2 : 0); }
		bool x = false, ax, bx;
		if (q == 4)
		{
			// written and read back in pieces
			for (size_t z = r(8); z; z--) { int c = (int)r(8); wq.push_back(c < 2 ? -1 : c < 5 ? 1 + (int)r(9000) : c == 5 && h ? -2 : 0); }
			std::deque<int> q0; q0.swap(rq); File f; x = f.Open("c", O_RDWR | O_CREAT); size_t at = 0; bool more = x, whole = true, full = true;
			while (more && at < a.size()) { size_t n = r(3) ? 1 + r(20000) : a.size(), g = 0; if (n > a.size() - at) n = a.size() - at; vh_pend("piece"); if (!f.Write((const uint8_t *)a.data() + at, n, g)) x = more = false; else if (g != n) whole = false; at += g; }
			wq.clear(); uint64_t pos = f.GetCurrPos(), mx = f.GetMaxPos(); ax = slurp(root + "/c", a2); f.Seek(File::SeekStart, 0); q0.swap(rq); bool y = true, eof = false;
			while (y && !eof) { size_t n = r(4) ? 1 + r(20000) : 1 + r(a.size() + 10), g = 0; std::string t(n, 'U'); bool was = shortio; shortio = false; vh_pend("piece back"); y = f.Read((uint8_t *)&t[0], n, g); if (y && !shortio && g != n && res.size() + g != a2.size()) full = false; shortio = shortio || was; if (y) { eof = !g; res += t.substr(0, g > n ? n : g); } }
			rq.clear(); E e("bpipe"); e.a("a", rle(a)).t("r", x).z("at", at).z("pos", (size_t)pos).z("max", (size_t)mx).a("disk", rle(a2)).t("whole", whole).t("full", full).t("back", y).a("res", rle(res)).t("hard", hard);
			continue;
		}
		if (q < 2) { vh_pend("copy"); x = File::Copy("a", "b"); }
		else if (q < 3) { vh_pend("move"); xdev = true; x = File::Move("a", "b"); xdev = false; }
		else
		{
			vh_pend("load"); char *p = (char *)0x10; size_t n = 777; bool alt = r(2); alive = 0; x = alt ? File::LoadEntireFile("a", p, n, &t_mgr, amalloc, afree) : File::LoadEntireFile("a", p, n);
			bool nul = p == NULL; if (x) res.assign(p, n); rq.clear(); E e("bload"); e.a("a", rle(a)).t("r", x).a("res", rle(res)).t("nul", nul).i("live", alive - (alt && x)).z("n", n).t("hard", hard).t("short", shortio);
			if (x) { if (alt) free(p); else delete[] p; }
			continue;
		}
		rq.clear(); wq.clear(); ax = slurp(root + "/a", a2); bx = slurp(root + "/b", b2);
		E e(q < 2 ? "bcopy" : "bmove"); e.a("a", rle(a)).t("r", x).t("ax", ax).a("a2", rle(a2)).t("bx", bx).a("b2", rle(b2)).t("hard", hard).t("short", shortio);
	}
	{ E e("end"); e.i("fds", 0); }
}
size_t vh_ncases(bool th) { return th ? 30000 : 5000; }
void vh_case(size_t i, Rng &r)
{
	prepare();
#if MODE == 0
	if (i % 6 == 5) sparse(r); else handles(r);
#else
	if (i % 3 == 2) bigcase(r); else handles(r);
#endif
}
#endif

#if MODE == 2
static int alive; static char t_mgr;
static void *arealloc(void *m, void *p, size_t n) { if (m != &t_mgr) abort(); if (!p) alive++; char *q = (char *)malloc(n); if (p) { size_t k = malloc_usable_size(p); memcpy(q, p, k < n ? k : n); free(p); } return q; }
size_t vh_ncases(bool th) { return th ? 60000 : 10000; }
void vh_case(size_t i, Rng &r)
{
	prepare();
	std::string s;
	if (i < 1365) { size_t n = 0, v = i, w = 1; while (v >= w) { v -= w; w *= 4; n++; } static const char al[] = {'a', '\n', '\r', '\0'}; for (size_t k = 0; k < n; k++) { s += al[v % 4]; v /= 4; } }
	else { size_t n = r(3) ? r(12) : r(60); int style = (int)r(4); for (size_t k = 0; k < n; k++) { int c = (int)r(10); if (style == 3 && k && s.back() == '\r') c = 1; s += c < 2 ? '\n' : c < 4 ? '\r' : c < 5 ? '\0' : (char)(32 + r(224)); } }
	bool lng = i >= 1365 && i % 40 == 3, vast = i >= 1365 && i % 800 == 43;
	if (lng) { s.clear(); static const size_t ln[] = {1022, 1023, 1024, 1025, 2047, 2048, 2049, 500, 0, 1, 3000}; static const char *en[] = {"\n", "\r\n", "\r", "\n\r"}; for (size_t k = 1 + r(3); k; k--) { s.append(ln[r(11)], (char)('a' + r(26))); s += en[r(4)]; } if (r(2)) s.append(ln[r(11)], 'Z'); }
	if (vast) { s.clear(); static const size_t ln[] = {4095, 4096, 4097, 5000, 65535, 65536, 65537, 70000, 0, 3}; for (size_t k = 1 + r(3); k && s.size() < 100000; k--) { size_t n = ln[r(10)]; while (n) { size_t m = 1 + r(700); if (m > n) m = n; s.append(m, (char)('a' + r(26))); n -= m; } static const char *en[] = {"\n", "\r\n", "\r"}; s += en[r(3)]; } }
	spit(root + "/f", s); File f; bool x = f.Open("f", O_RDONLY); size_t hint = r(3) ? 1 + r(8) : r(2) ? 1024 : 1 + r(64); bool alt = r(3) == 0, flt = r(2) == 0;
	{ E e("lopen"); e.b("b", s).t("r", x); }
	for (int k = 0; k < 80; k++)
	{
		bool at = f.GetCurrPos() >= f.GetMaxPos(); if (r(10) == 0) hint = 1 + r(12);
		rq.clear(); if (flt) for (size_t z = r(6); z; z--) rq.push_back(r(4) == 0 ? -1 : 1 + (int)r(lng ? 1500 : 3)); alive = 0;
		if (lng && (vast || r(3))) hint = r(2) ? 1024 : 100 + r(2000); if (r(12) == 0) { uint64_t to = r(s.size() + 2); std::deque<int> q; q.swap(rq); f.Seek(File::SeekStart, to); q.swap(rq); { E e("lseek"); e.z("pos", (size_t)f.GetCurrPos()); } at = f.GetCurrPos() >= f.GetMaxPos(); }
		else if (r(14) == 0) { uint8_t t[8]; size_t n = 1 + r(6), g = 0; std::deque<int> q; q.swap(rq); f.Read(t, n, g); q.swap(rq); { E e("lread"); e.z("n", n).b("b", std::string((char *)t, g)).z("pos", (size_t)f.GetCurrPos()); } at = f.GetCurrPos() >= f.GetMaxPos(); }
		vh_pend("line hint %zu", hint); char *p = !alt && hint == 1024 ? f.LineInput() : alt ? f.LineInput(hint, &t_mgr, arealloc) : f.LineInput(hint); rq.clear();
		{ E e("line"); e.t("ok", p != NULL).b("b", std::string(p ? p : "")).z("pos", (size_t)f.GetCurrPos()).i("live", alive - (alt && p)); }
		if (alt) free(p); else delete[] p;
		if (at) break;
	}
	f.Close(); { char *p = f.LineInput(); E e("lclosed"); e.t("ok", p != NULL); }
	File g; if (g.Open("f", O_WRONLY)) { char *p = g.LineInput(); E e("lclosed"); e.t("ok", p != NULL); }
}
#endif

#if MODE == 3
static std::string rname(Rng &r, bool base)
{
	static const char *c[] = {"a", "bc", "..", ".", "...", ".a", "a.", "..b", "", "x.y.z", "\xc3\xbc", "\xe2\x82\xac", "d e", "..."}; std::string s; size_t n = r(6);
	if (base) { for (size_t k = 0; k < n; k++) { s += "/"; static const char *d[] = {"a", "bc", ".x", "\xc3\xbc", "..y", "z..", "lang"}; s += d[r(7)]; } if (s.empty() || r(3) == 0) s += "/"; return s; }
	if (r(3) == 0) s = "/"; for (size_t k = 0; k < n; k++) { if (k) s += r(8) ? "/" : r(2) ? "\\" : "//"; s += c[r(14)]; } if (r(6) == 0) s += "/"; return s;
}
size_t vh_ncases(bool th) { return th ? 40000 : 6000; }
void vh_case(size_t i, Rng &r)
{
	prepare(); char cw[4096];
	if (i >= 800 && i % 25 == 7)
	{
		// names and bases around the size of the internal buffers
		auto pad = [&](size_t n) { std::string s; while (s.size() < n) { static const char *c[] = {"/", "/../", "/./", "//", "/x.y/"}; s += c[r(5)]; s += std::string(1 + r(r(2) ? 300 : 4000), (char)('a' + r(26))); } return s.substr(0, n); };
		for (int k = 0; k < 3; k++)
		{
			size_t total = r(3) ? 8160 + r(50) : r(2) ? 4000 + r(200) : 8400 + r(9000), nb = r(3) ? 1 + r(40) : r(total); std::string b, n;
			while (b.size() < nb) { b += "/"; b += std::string(1 + r(500), 'b'); } n = pad(total > b.size() ? total - b.size() : 1); if (n[0] == '/' && r(2)) n.erase(0, 1); if (n.empty()) n = "x"; if (r(6) == 0) n[r(n.size())] = '\\';
			if (r(3) == 0) { // exactly at the limits
				static const char *tl[] = {"/..", "/.", "/", "/../a", "", "/../.."}; std::string t = tl[r(2) ? 0 : r(6)]; size_t w = 8186 + r(8); b = "/";
				if (r(2)) { n.clear(); while (n.size() + t.size() < w) { n += std::string(1 + r(900), 'c'); n += "/"; } n = n.substr(0, w - t.size()); if (n.back() == '/') n.back() = 'd'; n += t; if (r(2)) b = "/e/f"; }
				else { while (b.size() < w) { b += std::string(1 + r(900), 'b'); b += "/"; } b = b.substr(0, w); if (r(2)) b.back() = 'b'; n = r(3) ? "x" : t.empty() || t[0] == '/' ? "." + t : t; if (r(3) == 0) n = ".."; } }
			bool tr = r(2); size_t cap = r(2) ? 8192 : r(2) ? 20000 : 1 + r(total + 5); char *heap = (char *)malloc(cap); memset(heap, 0x55, cap); vh_pend("abs long %zu %zu", b.size(), n.size());
			bool x = File::GetAbsoluteFilename(heap, cap, b.c_str(), n.c_str(), tr); std::string out; if (x) out.assign(heap, strnlen(heap, cap)); bool term = !x || memchr(heap, 0, cap) != NULL; free(heap);
			{ E e("abs"); e.b("base", b).b("n", n).t("tr", tr).z("cap", cap).t("r", x).t("term", term).b("out", out); }
			vh_pend("valid long"); bool v = File::IsValidFilenameFormat(n.c_str()); E e("valid"); e.b("n", n).t("v", v);
		}
		return;
	}
	for (int k = 0; k < 12; k++)
	{
		std::string n, b = rname(r, true); int kind = (int)r(8);
		if (i < 800) { static const char al[] = {'/', '.', '.', 'a'}; size_t v = i * 12 + (size_t)k, w = 1, m = 0; while (v >= w) { v -= w; w *= 4; m++; } for (size_t z = 0; z < m; z++) { n += al[v % 4]; v /= 4; } }
		else { n = rname(r, false); if (r(12) == 0 && !n.empty()) n[r(n.size())] = (char)r(256); if (r(20) == 0) n += std::string(1, "*?\"<>|\x7f\x1f\t:"[r(10)]); n = n.c_str(); }
		if (kind < 4)
		{
			bool tr = r(2), cwd = r(6) == 0; size_t cap = r(3) ? 8192 : r(2) ? b.size() + n.size() + 4 - r(8 < b.size() + n.size() ? 8 : 1) : r(20); if (!cap) cap = 1; std::string base = b;
			if (cwd) { if (!getcwd(cw, sizeof cw)) _exit(98); base = cw; } if (!cwd && r(10) == 0) { base = base.substr(1); if (base.empty()) base = "q"; }
			std::vector<char> res(cap + 1, '\x55'); char *heap = (char *)malloc(cap); memset(heap, 0x55, cap); vh_pend("abs %s", n.c_str());
			bool x = File::GetAbsoluteFilename(heap, cap, cwd ? NULL : base.c_str(), n.c_str(), tr); std::string out; if (x) out.assign(heap, strnlen(heap, cap)); bool term = !x || memchr(heap, 0, cap) != NULL; free(heap);
			E e("abs"); e.b("base", base).b("n", n).t("tr", tr).z("cap", cap).t("r", x).t("term", term).b("out", out);
		}
		else if (kind < 6)
		{
			size_t cap = r(3) ? 8192 : n.size() + 2 - r(3); if (!cap) cap = 1; char *heap = (char *)malloc(cap); memset(heap, 0x55, cap); bool x = File::GetPlatformFilename(heap, cap, n.c_str()); std::string out; if (x) out.assign(heap, strnlen(heap, cap)); bool term = !x || memchr(heap, 0, cap) != NULL; free(heap);
			bool v = File::IsValidFilenameFormat(n.c_str()); E e("plat"); e.b("n", n).z("cap", cap).t("r", x).t("term", term).b("out", out).t("v", v);
		}
		else { File::FilenameInfo f; memset(&f, 0x55, sizeof f); File::GetPlatformFilenameInfo(f, n.c_str()); E e("info"); e.b("n", n).z("vol", f.StartVolume).z("path", f.StartPath).z("file", f.StartFilename).z("ext", f.StartExtension).z("last", f.StartLastExtension).z("len", f.Length); }
	}
}
#endif

#if MODE == 4
static const char *comp[] = {"", "a", "b", "\xc3\xbc x", "..h", "lang.txt"};
typedef std::vector<int> Path;
static std::string join(const Path &p) { std::string s; for (size_t k = 0; k < p.size(); k++) { if (k) s += "/"; s += comp[p[k]]; } return s; }
static bool unjoin(const std::string &abs, Path &p) { p.clear(); if (abs == root) return true; if (abs.compare(0, root.size() + 1, root + "/")) return false; std::string s = abs.substr(root.size() + 1); size_t i = 0; while (i <= s.size()) { size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); int c = 0; for (int k = 1; k <= 5; k++) if (s.substr(i, j - i) == comp[k]) c = k; if (!c) return false; p.push_back(c); i = j + 1; } return true; }
static void walk(const std::string &d, Path &p, std::vector<std::vector<int>> &o)
{
	DIR *D = opendir(d.c_str()); if (!D) { o.push_back({99}); return; }
	while (struct dirent *e = readdir(D))
	{
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		int c = 0; for (int k = 1; k <= 5; k++) if (!strcmp(e->d_name, comp[k])) c = k; if (!c) { o.push_back({99}); continue; }
		p.push_back(c); std::string q = d + "/" + e->d_name; struct stat st; if (lstat(q.c_str(), &st)) { o.push_back({99}); p.pop_back(); continue; }
		std::vector<int> v; v.push_back(S_ISDIR(st.st_mode) ? 1 : S_ISREG(st.st_mode) ? 2 : S_ISLNK(st.st_mode) ? 3 : 98); v.push_back((int)(st.st_mode & 07777)); v.push_back((int)st.st_mtim.tv_sec); v.push_back((int)(st.st_mtim.tv_nsec / 1000)); v.push_back((int)p.size()); for (auto x : p) v.push_back(x);
		if (S_ISREG(st.st_mode)) { std::string s; bool np = !(st.st_mode & 0400); if (np) chmod(q.c_str(), 0600); slurp(q, s); if (np) chmod(q.c_str(), st.st_mode & 07777); for (char x : s) v.push_back((unsigned char)x); }
		if (S_ISLNK(st.st_mode)) { char l[4096]; ssize_t z = readlink(q.c_str(), l, sizeof l); Path t; if (z < 0 || !unjoin(std::string(l, (size_t)z), t)) v[0] = 97; else for (auto x : t) v.push_back(x); }
		o.push_back(v);
		if (S_ISDIR(st.st_mode)) walk(q, p, o);
		p.pop_back();
	}
	closedir(D);
}
static void dump() { std::vector<std::vector<int>> o; Path p; walk(root, p, o); std::sort(o.begin(), o.end()); E e("tree"); e.aa("t", o); }
static std::vector<Path> known;
static Path rp(Rng &r)
{
	if (!known.empty() && r(3)) { Path p = known[r(known.size())]; int z = (int)r(6); if (z == 0 && p.size() < 4) p.push_back(1 + (int)r(4)); if (z == 1 && p.size() > 1) p.pop_back(); return p; }
	Path p; size_t n = 1 + r(3); for (size_t k = 0; k < n; k++) p.push_back(1 + (int)r(r(3) ? 3 : 5)); return p;
}
static bool g_lg;          // a name too long for the system was used
// dir: the name goes through GetAbsoluteFilename, which resolves "." and ".." by itself
static std::string nm(Rng &r, const Path &p, bool dir = false)
{
	std::string s = join(p); if (r(3) == 0 || p.empty()) s = root + (p.empty() ? "" : "/" + s); if (dir && r(5) == 0) s += "/"; if (r(8) == 0) { for (auto &c : s) if (c == '/') { c = '\\'; break; } }
	if (dir && r(4) == 0) { static const char *mid[] = {"/./", "//", "/nix/../", "/b/.././", "/a/a/../../"}; size_t k = s.find('/', s[0] == '/' ? root.size() : 0); if (k != std::string::npos && k >= (s[0] == '/' ? root.size() : 0)) s.replace(k, 1, mid[r(5)]); else if (s[0] != '/' && s[0] != '\\') s = (r(2) ? "./" : "x/../") + s; }
	if (r(45) == 0)
	{
		static const size_t ls[] = {300, 4000, 4095, 4096, 5000, 8184, 8190, 8192, 8200, 9000, 20000}; size_t want = ls[r(11)] + r(3); size_t k = s[0] == '/' ? root.size() + 1 : 0; if (s[0] == '\\') return s;
		if (k <= s.size()) { std::string pad; while (s.size() + pad.size() + 2 <= want) pad += "./"; s.insert(k, pad); } if (s.size() > 4090) g_lg = true;
	}
	return s;
}
size_t vh_ncases(bool th) { return th ? 30000 : 5000; }
void vh_case(size_t i, Rng &r)
{
	prepare(); known.clear(); (void)i; File held; bool holding = false;
	int len = 10 + (int)r(16); dump();
	// a small tree in which some directories may not be written to
	bool shut = i % 3 == 0; static const int pre[][3] = {{0, 1, 0}, {0, 2, 0}, {3, 1, 1}, {3, 2, 2}, {0, 1, 2}, {3, 2, 1}, {20, 1, 0}, {20, 2, 0}};
	if (shut) { len += 8; for (auto &z : pre) { Path p; p.push_back(z[1]); if (z[2]) p.push_back(z[2]); known.push_back(p); } }
	for (int k = 0; k < len; k++)
	{
		static const int ms[] = {0777, 0755, 0700, 0711, 0500, 0555}, fm[] = {0644, 0600, 0755, 0666, 0, 0400, 0200, 0444};
		Path p = rp(r), p2 = rp(r); int q = (int)r(26); if (!shut && k < 5) q = (int)r(8) < 4 ? 0 : (int)r(8);
		bool fix = shut && (k < 6 ? r(5) != 0 : k < 8); if (fix) { q = pre[k][0]; p = known[(size_t)k]; } if (shut && !fix && r(3) == 0) q = (int)(r(2) ? 12 : r(2) ? 20 : r(2) ? 14 : 8);
		if (r(2)) known.push_back(p);
		bool dumped = true; g_lg = false;
		if (q < 3) { bool rec = r(3) == 0; int m = ms[fix ? 2 : r(r(3) ? 4 : 6)]; std::string s = nm(r, p, true); vh_pend("mkdir %s", s.c_str()); bool x = Dir::Mkdir(s.c_str(), m, rec); E e("mkdir"); e.t("lg", g_lg); e.a("p", p).i("m", m).t("rec", rec).t("r", x); known.push_back(p); }
		else if (q < 6) { std::string b = rbytes(r, r(6)), s = nm(r, p); File f; size_t g; static const int cm[] = {0600, 0644, 0777, 0640, 0400, 0606, 0, 07644}; int m = r(2) ? 0666 : cm[r(8)]; bool x = m == 0666 ? f.Open(s.c_str(), O_WRONLY | O_CREAT | O_TRUNC) : f.Open(s.c_str(), O_WRONLY | O_CREAT | O_TRUNC, File::ShareBoth, m); if (x) x = f.Write((const uint8_t *)b.data(), b.size(), g); f.Close(); E e("put"); e.t("lg", g_lg); e.i("m", m & 0777).a("p", p).b("b", b).t("r", x); known.push_back(p); }
		else if (q < 8) { Path t = r(3) ? p2 : Path(); if (r(4) == 0 && !known.empty()) t = known[r(known.size())]; std::string a = root + "/" + join(p), s = root + (t.empty() ? "" : "/" + join(t)); vh_pend("symlink"); bool x = File::Symlink(a.c_str(), s.c_str()); E e("symlink"); e.a("p", p).a("t", t).t("r", x); known.push_back(p); }
		else if (q < 10) { bool rec = r(3) != 0; if (p.empty()) continue; std::string s = nm(r, p, true); vh_pend("rmdir %s", s.c_str()); bool x = Dir::Rmdir(s.c_str(), rec); E e("rmdir"); e.t("lg", g_lg); e.a("p", p).t("rec", rec).t("r", x); }
		else if (q < 12) { std::string a = nm(r, p), b = nm(r, p2); vh_pend("copy"); owners.clear(); bool x = File::Copy(a.c_str(), b.c_str()); bool own = !x; for (auto &o : owners) if (o.first == (long)geteuid()) own = true; E e("copy"); e.t("lg", g_lg); e.a("p", p).a("q", p2).t("r", x && own); known.push_back(p2); }
		else if (q < 14)
		{
			struct stat st; std::string a = nm(r, p), b = nm(r, p2); xdev = r(3) == 0 && lstat((root + "/" + join(p)).c_str(), &st) == 0 && S_ISREG(st.st_mode); bool xd = xdev; vh_pend("move"); bool x = File::Move(a.c_str(), b.c_str()); xdev = false;
			E e("move"); e.t("lg", g_lg); e.a("p", p).a("q", p2).t("xdev", xd).t("r", x); known.push_back(p2);
		}
		else if (q < 15) { std::string a = nm(r, p); bool x = File::Delete(a.c_str()); E e("delete"); e.t("lg", g_lg); e.a("p", p).t("r", x); }
		else if (q < 16)
		{
			if (r(4) == 0) p.clear(); Dir d; if (r(4) == 0) { d.Open(nm(r, rp(r), true).c_str()); char z[300]; for (size_t y = r(3); y; y--) d.Read(z, sizeof z); g_lg = false; }
			std::string a = nm(r, p, true); size_t cap = r(3) ? 300 : 1 + r(12); bool x = d.Open(a.c_str()); std::vector<int> l, fit; char *n = (char *)malloc(cap); int miss = 0;
			for (int z = 1; z <= 5; z++) if (strlen(comp[z]) + 1 <= cap) fit.push_back(z);
			while (x && miss < (cap == 300 ? 1 : 12)) { if (!d.Read(n, cap)) { miss++; continue; } if (!memchr(n, 0, cap)) { l.push_back(98); continue; } if (!strcmp(n, ".") || !strcmp(n, "..")) continue; int c = 99; for (int z = 1; z <= 5; z++) if (!strcmp(n, comp[z])) c = z; l.push_back(c); }
			free(n); std::sort(l.begin(), l.end()); bool c2 = d.Close(); E e("list"); e.t("lg", g_lg); e.a("p", p).t("r", x).a("l", l).a("fit", fit).t("c2", c2); dumped = false;
		}
		else if (q < 17)
		{
			std::string a = root + "/" + join(p); size_t cap = r(2) ? 4096 : r(2) ? a.size() + 4 - r(5) : 1 + r(60); char *b = (char *)malloc(cap); memset(b, 'U', cap); struct stat st; char l[4096]; ssize_t z = lstat(a.c_str(), &st) == 0 && S_ISLNK(st.st_mode) ? readlink(a.c_str(), l, sizeof l) : -1;
			bool x = File::Readlink(b, cap, a.c_str()); Path t; bool good = !x || (memchr(b, 0, cap) && unjoin(b, t)); free(b); E e("readlink"); e.a("p", p).t("fit", z >= 0 && (size_t)z < cap).t("r", x).t("good", good).a("t", t); dumped = false;
		}
		else if (q < 18)
		{
			std::string a = nm(r, p); for (auto &c : a) if (c == '\\') c = '/'; char l[PATH_MAX]; char *rr = realpath(a.c_str(), l); size_t need = rr ? strlen(l) + 1 : 0; size_t cap = r(2) ? 4096 : need ? need + 1 - r(4) : 10; if (!cap) cap = 1; char *b = (char *)malloc(cap); memset(b, 'U', cap);
			bool x = File::Realpath(b, cap, a.c_str()); Path t; bool good = !x || (memchr(b, 0, cap) && unjoin(b, t)); free(b); E e("realpath"); e.t("lg", g_lg); e.a("p", p).t("fit", cap >= need).t("r", x).t("good", good).a("t", t); dumped = false;
		}
		else if (q < 19) { std::string a = nm(r, p); bool x = File::Exists(a.c_str()), ln = r(2); File::FileStat st; memset(&st, 0, sizeof st); bool y = File::Stat(st, a.c_str(), ln); E e("stat"); e.t("lg", g_lg); e.a("p", p).t("x", x).t("ln", ln).t("r", y).i("ty", !y ? 0 : S_ISDIR(st.st_mode) ? 1 : S_ISREG(st.st_mode) ? 2 : 3).i("m", (int)(st.st_mode & 07777)).i("size", y && S_ISREG(st.st_mode) ? (int)st.st_size : 0); dumped = false; }
		else if (q < 20) { std::string a = nm(r, p); char *b = NULL; size_t n = 0; bool x = File::LoadEntireFile(a.c_str(), b, n); E e("load"); e.t("lg", g_lg); e.a("p", p).t("r", x).b("b", x ? std::string(b, n) : ""); delete[] b; dumped = false; }
		else if (q < 21) { std::string a = nm(r, p); struct stat st; bool dir = stat((root + "/" + join(p)).c_str(), &st) == 0 && S_ISDIR(st.st_mode); char rl[PATH_MAX]; bool top = !realpath((root + "/" + join(p)).c_str(), rl) || root == rl; int m = dir ? ms[r(top || r(3) == 0 ? 4 : 6)] : fm[r(8)]; bool x = File::Chmod(a.c_str(), m); E e("chmod"); e.t("lg", g_lg); e.a("p", p).i("m", m).t("r", x); }
		else if (q < 22)
		{
			std::string a = nm(r, p); static const char *un[] = {"root", "nobody", "daemon", "www-data", "no such name", "adm", "games", "mail"}; const char *u = un[r(8)]; bool grp = r(2); owners.clear(); long id = -1; bool kn;
			if (grp) { struct group *g = getgrnam(u); kn = g != NULL; if (g) id = (long)g->gr_gid; } else { struct passwd *g = getpwnam(u); kn = g != NULL; if (g) id = (long)g->pw_uid; }
			bool x = grp ? File::Chgrp(a.c_str(), u) : File::Chown(a.c_str(), u); bool good = owners.size() == 1 && (grp ? owners[0].first == -1 && owners[0].second == id : owners[0].second == -1 && owners[0].first == id);
			E e("owner"); e.t("lg", g_lg); e.a("p", p).t("known", kn).t("r", x).t("good", good).i("n", (int)owners.size());
		}
		else if (q >= 24)
		{
			if (holding) { held.Close(); holding = false; E e("letgo"); }
			else { bool ex = r(2); std::string a = root + "/" + join(p); bool x = held.Open(a.c_str(), O_RDONLY, ex ? File::ShareNone : File::ShareBoth); struct stat st; if (x && (stat(a.c_str(), &st) || !S_ISREG(st.st_mode))) { held.Close(); continue; } holding = x; E e("hold"); e.a("p", p).t("ex", ex).t("r", x); }
		}
		else
		{
			std::string a = nm(r, p); uint64_t at = (1000000000ull + r(900000000)) * 1000000 + r(1000000), mt = (1000000000ull + r(900000000)) * 1000000 + r(1000000); int w = (int)r(4); bool ha = w != 1, hm = w != 2; if (w == 3) ha = hm = true;
			struct stat s0, st; memset(&s0, 0, sizeof s0); stat((root + "/" + join(p)).c_str(), &s0); bool x = File::SetFileTimes(a.c_str(), NULL, ha ? &at : NULL, hm ? &mt : NULL); memset(&st, 0, sizeof st); stat((root + "/" + join(p)).c_str(), &st);
			bool ok = !x || ((ha ? (uint64_t)st.st_atim.tv_sec * 1000000 + (uint64_t)st.st_atim.tv_nsec / 1000 == at : st.st_atim.tv_sec == s0.st_atim.tv_sec) && (hm || st.st_mtim.tv_sec == s0.st_mtim.tv_sec));
			E e("times"); e.t("lg", g_lg); e.a("p", p).t("hm", hm).i("mt", (long long)(mt / 1000000)).i("mu", (long long)(mt % 1000000)).t("r", x).t("ok", ok);
		}
		if (dumped) dump();
	}
	char cw[PATH_MAX], c2[PATH_MAX]; size_t need = root.size() + 1; bool a = Dir::Getcwd(cw, need), b = Dir::Getcwd(c2, need - 1); held.Close(); int nfd = 0; DIR *D = opendir("/proc/self/fd"); if (D) { while (struct dirent *e = readdir(D)) { char l[4096]; std::string p = std::string("/proc/self/fd/") + e->d_name; ssize_t z = readlink(p.c_str(), l, sizeof l); if (z > 0 && (size_t)z >= root.size() && !strncmp(l, root.c_str(), root.size())) nfd++; } closedir(D); }
	{ E e("cwd"); e.i("fds", nfd).t("a", a && !strcmp(cw, root.c_str())).t("b", b); }
	wipe(root);
}
#endif
