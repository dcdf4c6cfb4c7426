// Force-included before utf8/utf8_file_dir.cpp: the system calls go through the harness, which
// injects faults and refuses (and reports) every change outside the scratch folder.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <utime.h>
#include <pwd.h>
#include <grp.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/time.h>
extern "C" {
int vf_open(const char *, int, ...);
ssize_t vf_read(int, void *, size_t);
ssize_t vf_write(int, const void *, size_t);
off64_t vf_lseek64(int, off64_t, int);
int vf_ftruncate(int, off64_t);
void vf_sync(void);
int vf_fsync(int);
int vf_unlink(const char *);
int vf_remove(const char *);
int vf_rmdir(const char *);
int vf_mkdir(const char *, mode_t);
int vf_rename(const char *, const char *);
int vf_symlink(const char *, const char *);
int vf_chmod(const char *, mode_t);
int vf_chown(const char *, uid_t, gid_t);
int vf_utime(const char *, const struct utimbuf *);
int vf_utimes(const char *, const struct timeval *);
}
#define open(...) vf_open(__VA_ARGS__)
#define open64(...) vf_open(__VA_ARGS__)
#define read(a, b, c) vf_read(a, b, c)
#define write(a, b, c) vf_write(a, b, c)
#define lseek64(a, b, c) vf_lseek64(a, b, c)
#define lseek(a, b, c) vf_lseek64(a, b, c)
#define ftruncate(a, b) vf_ftruncate(a, b)
#define ftruncate64(a, b) vf_ftruncate(a, b)
#define sync() vf_sync()
#define fsync(a) vf_fsync(a)
#define fdatasync(a) vf_fsync(a)
#define unlink(a) vf_unlink(a)
#define remove(a) vf_remove(a)
#define rmdir(a) vf_rmdir(a)
#define mkdir(a, b) vf_mkdir(a, b)
#define rename(a, b) vf_rename(a, b)
#define symlink(a, b) vf_symlink(a, b)
#define chmod(a, b) vf_chmod(a, b)
#define chown(a, b, c) vf_chown(a, b, c)
#define lchown(a, b, c) vf_chown(a, b, c)
#define utime(a, b) vf_utime(a, b)
#define utimes(a, b) vf_utimes(a, b)
