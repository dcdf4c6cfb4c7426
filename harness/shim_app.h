// Force-included before utf8_appinfo.cpp: the process environment is played by the driver.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <limits.h>
#include <stdlib.h>
#include <pwd.h>
#include <sys/types.h>
#include <sys/stat.h>
extern "C" char *vha_getenv(const char *);
extern "C" struct passwd *vha_getpwuid(uid_t);
extern "C" ssize_t vha_readlink(const char *, char *, size_t);
#define getenv(a) vha_getenv(a)
#define getpwuid(a) vha_getpwuid(a)
#define readlink(a, b, c) vha_readlink(a, b, c)
