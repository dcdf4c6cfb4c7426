// Test library: every function records its name and arguments in the sink the program provides.
#include <vector>
#include <cstdint>
#include <cstddef>
#ifndef LIBNO
#define LIBNO 1
#endif
struct Sink { int n; int v[64]; };
struct Pt { int x; double y; char c; };
static Sink *sink;
static void rec(int f) { if (sink) sink->v[sink->n++] = f; }
static int arg(int a) { if (sink && sink->n < 60) sink->v[sink->n++] = a; return a; }
extern "C" {
void set_sink(Sink *s) { sink = s; }
int whoami() { return LIBNO; }
int f_none() { rec(1); return 7 * LIBNO; }
// exported under a name that the C library uses too
int f_int(int a) __asm__("toascii");
int f_int(int a) { rec(2); return arg(a) + LIBNO; }
long long f_mix(signed char a, short b, int c, long long d) { rec(3); arg(a); arg(b); arg(c); arg((int)d); return a + 3LL * b + 5LL * c + 7 * d + LIBNO; }
double f_dbl(double a, float b, int c) { rec(4); arg((int)(a * 4)); arg((int)(b * 4)); arg(c); return (a + 3 * b + 5 * c) * LIBNO; }
int f_ptr(const char *s, int *out) { rec(5); int t = 0, k = 0; for (; s[k]; k++) t += (k + 1) * (unsigned char)s[k]; arg(t); *out = t + LIBNO; return k; }
int f_many(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) { rec(6); arg(a); arg(b); arg(c); arg(d); arg(e); arg(f); arg(g); arg(h); arg(i); arg(j); return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f + 7 * g + 8 * h + 9 * i + 10 * j + LIBNO; }
Pt f_struct(Pt p, unsigned char k) { rec(7); arg(p.x); arg((int)(p.y * 4)); arg(p.c); arg(k); p.x += k * LIBNO; p.y += k; p.c = (char)(p.c + 1); return p; }
bool f_bool(bool a, bool b) { rec(8); arg(a); arg(b); return a && !b; }
void v_none() { rec(11); }
void v_int(int a) { rec(12); arg(a); }
void v_mix(long long a, double b, unsigned short c) { rec(13); arg((int)a); arg((int)(b * 4)); arg(c); }
#if LIBNO == 2
int f_only2(int a) { rec(9); return arg(a) * 2; }
#endif
}
