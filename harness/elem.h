// Element type with heap-owned payload and a live counter: double destruction,
// use of a destroyed element or a missing destruction become visible.
#pragma once
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static inline size_t vh_heap() { return __sanitizer_get_current_allocated_bytes(); }
struct Elem
{
	static long live; int *p;
	Elem() : p(new int(0)) { live++; }
	Elem(int v) : p(new int(v)) { live++; }
	Elem(const Elem &o) : p(new int(*o.p)) { live++; }
	Elem &operator=(const Elem &o) { *p = *o.p; return *this; }
	bool operator==(const Elem &o) const { return *p == *o.p; }
	bool operator!=(const Elem &o) const { return *p != *o.p; }
	~Elem() { *p = -999; delete p; p = NULL; live--; }
	int get() const { return *p; }
};
long Elem::live = 0;
