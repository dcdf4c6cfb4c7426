#define LIBNO 2
#include "lib_rec.cpp"
