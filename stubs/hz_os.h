// Operating system model: an in-memory file system, environment, named semaphores, sockets, threads.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstddef>
#include <sys/types.h>
// ---- files: hz_fopen() returns one of these as a FILE*
struct hz_node { char *name; unsigned char *data; size_t size, cap; bool dir; hz_node *next; };
struct hz_file { hz_node *node; size_t pos; bool rd, wr; };
extern "C" {
hz_node *hz_fs_find(const char *path);
extern "C" int hz_fs_strict;
hz_node *hz_fs_create(const char *path, bool dir);
void hz_fs_remove(const char *path);
void hz_fs_resize(hz_node *n, size_t size);            // zero fills
extern int hz_open_files;                               // streams currently open
// ---- environment
void hz_env_set(const char *name, const char *value);   // value nullptr: unset
// ---- sockets: harnesses override these weak functions as needed
long hz_send(int fd, const void *buf, size_t n, int flags);
long hz_recv(int fd, void *buf, size_t n, int flags);
int hz_close(int fd);
int hz_socket(int d, int t, int p);
int hz_bind(int fd, const void *addr, unsigned len);
int hz_listen(int fd, int n);
int hz_accept(int fd, void *addr, void *len);
int hz_setsockopt(int fd, int level, int opt, const void *val, unsigned len);
int hz_shutdown(int fd, int how);
// ---- threads
extern int hz_threads_started, hz_threads_finished;
bool hz_mutex_locked(const void *m);                    // is a std::mutex / pthread mutex currently held
unsigned long hz_rand64_source(const char *what);       // a fresh symbolic 64-bit number
unsigned long hz_mt_source(unsigned long seed, unsigned long n);   // the n-th number of a seeded generator; by default a fresh symbolic one
}
