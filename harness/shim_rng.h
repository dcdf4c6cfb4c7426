// Force-included before security/*.cpp: the system's random devices are played by the driver.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
extern "C" int vhr_open(const char *, int, ...);
extern "C" ssize_t vhr_read(int, void *, size_t);
extern "C" int vhr_close(int);
#define open(...) vhr_open(__VA_ARGS__)
#define read(a, b, c) vhr_read(a, b, c)
#define close(a) vhr_close(a)
