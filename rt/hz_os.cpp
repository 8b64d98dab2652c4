// Operating system model shared by symbolic execution and native replay (see stubs/hz_os.h).
#include <cstring>
#include <cstdlib>
#define WEAK __attribute__((weak))
extern "C" {
// ------------------------------------------------------------------------------------------------ files
static hz_node *hz_nodes = nullptr;
int hz_open_files = 0;
int hz_fs_strict = 0;                                  // files can only be created in directories that exist
static char hz_norm_buf[512];
static const char *hz_norm(const char *p) {            // an absolute path without "//" and "/./"; the input where it has that form already
    bool plain = p[0] == '/';
    for (size_t i = 0; plain && p[i]; i++) if (p[i] == '/' && (p[i + 1] == '/' || (p[i + 1] == '.' && (p[i + 2] == '/' || !p[i + 2])))) plain = false;
    if (plain) return p;
    size_t k = 0;
    if (p[0] != '/') for (const char *c = "/cwd/"; *c; c++) hz_norm_buf[k++] = *c;
    for (size_t i = 0; p[i] && k < 500; i++) {
        if (p[i] == '/' && k && hz_norm_buf[k - 1] == '/') continue;
        if (p[i] == '.' && k && hz_norm_buf[k - 1] == '/' && (p[i + 1] == '/' || !p[i + 1])) { if (p[i + 1]) i++; continue; }
        hz_norm_buf[k++] = p[i];
    }
    if (k > 1 && hz_norm_buf[k - 1] == '/') k--;
    hz_norm_buf[k] = 0;
    return hz_norm_buf;
}
static bool hz_fs_parent(const char *path) {
    path = hz_norm(path);
    char b[512]; size_t last = 0, i = 0;
    for (; path[i] && i < 511; i++) { b[i] = path[i]; if (b[i] == '/') last = i; }
    if (!last) return true;
    for (hz_node *n = hz_nodes; n; n = n->next) if (n->dir && strlen(n->name) == last && memcmp(n->name, b, last) == 0) return true;
    return false;
}
hz_node *hz_fs_find(const char *path) {
    path = hz_norm(path);
    for (hz_node *n = hz_nodes; n; n = n->next) if (strcmp(n->name, path) == 0) return n;
    return nullptr;
}
hz_node *hz_fs_create(const char *path, bool dir) {
    hz_node *n = hz_fs_find(path);
    if (n) { n->dir = dir; n->size = 0; return n; }
    path = hz_norm(path);
    n = new hz_node();
    size_t l = strlen(path) + 1;
    n->name = new char[l];
    for (size_t i = 0; i < l; i++) n->name[i] = path[i];
    n->dir = dir; n->size = n->cap = 0; n->data = nullptr;
    n->next = hz_nodes;
    hz_nodes = n;
    return n;
}
void hz_fs_remove(const char *path) {
    path = hz_norm(path);
    for (hz_node **p = &hz_nodes; *p; p = &(*p)->next) if (strcmp((*p)->name, path) == 0) { *p = (*p)->next; return; }
}
void hz_fs_resize(hz_node *n, size_t size) {
    if (size > n->cap) {
        size_t c = n->cap ? n->cap : 256;
        while (c < size) c *= 2;
        unsigned char *d = new unsigned char[c];
        if (n->size) memcpy(d, n->data, n->size);
        memset(d + n->size, 0, c - n->size);
        delete[] n->data;
        n->data = d; n->cap = c;
    }
    n->size = size;
}
WEAK void *hz_fopen(const char *path, const char *mode) {
    hz_node *n = hz_fs_find(path);
    bool plus = false;
    for (const char *m = mode; *m; m++) if (*m == '+') plus = true;
    if (mode[0] == 'r' && (!n || n->dir)) return nullptr;
    if (n && n->dir) return nullptr;
    if (!n && hz_fs_strict && !hz_fs_parent(path)) return nullptr;
    if (mode[0] == 'w') n = hz_fs_create(path, false);
    if (mode[0] == 'a' && !n) n = hz_fs_create(path, false);
    hz_file *f = new hz_file();
    f->node = n; f->pos = mode[0] == 'a' ? n->size : 0;
    f->rd = mode[0] == 'r' || plus; f->wr = mode[0] != 'r' || plus;
    hz_open_files++;
    return f;
}
void *hz_fopen64(const char *path, const char *mode) { return hz_fopen(path, mode); }
WEAK int hz_fclose(void *p) {
    if (!p) { hzs_fail("fclose(NULL)"); return -1; }
    hz_file *f = (hz_file *) p;
    f->node = nullptr;
    hz_open_files--;
    delete f;
    return 0;
}
size_t hz_fread(void *b, size_t s, size_t k, void *p) {
    hz_file *f = (hz_file *) p;
    if (!s || !k || f->pos >= f->node->size) return 0;
    size_t n = s * k, left = f->node->size - f->pos;
    if (n > left) n = left;
    memcpy(b, f->node->data + f->pos, n);
    f->pos += n;
    return n / s;
}
size_t hz_fwrite(const void *b, size_t s, size_t k, void *p) {
    hz_file *f = (hz_file *) p;
    size_t n = s * k;
    if (!n || !f->wr) return 0;
    if (f->pos + n > f->node->size) hz_fs_resize(f->node, f->pos + n);
    memcpy(f->node->data + f->pos, b, n);
    f->pos += n;
    return k;
}
int hz_fseek(void *p, long o, int w) { hz_file *f = (hz_file *) p; f->pos = (w == 0 ? 0 : w == 1 ? f->pos : f->node->size) + (size_t) o; return 0; }
long hz_ftell(void *p) { return (long) ((hz_file *) p)->pos; }
int hz_fflush(void *) { return 0; }
int hz_fileno(void *) { return 3; }
int hz_remove(const char *path) { if (!hz_fs_find(path)) return -1; hz_fs_remove(path); return 0; }
int hz_unlink(const char *path) { return hz_remove(path); }
static int hz_errno_value = 0;
int *hz___errno_location() { return &hz_errno_value; }
char *hz_strerror(int) { return (char *) "error"; }
// output that nobody reads
int hz_puts(const char *) { return 0; }
int hz_putchar(int c) { return c; }
// ------------------------------------------------------------------------------------------------ environment
struct hz_env_entry { const char *name, *value; };
static hz_env_entry hz_env[32];
static int hz_env_n = 0;
void hz_env_set(const char *name, const char *value) {
    for (int i = 0; i < hz_env_n; i++) if (strcmp(hz_env[i].name, name) == 0) { hz_env[i].value = value; return; }
    hz_env[hz_env_n].name = name; hz_env[hz_env_n].value = value; hz_env_n++;
}
char *hz_getenv(const char *name) {
    for (int i = 0; i < hz_env_n; i++) if (strcmp(hz_env[i].name, name) == 0) return (char *) hz_env[i].value;
    return nullptr;
}
char *hz_secure_getenv(const char *name) { return hz_getenv(name); }
// ------------------------------------------------------------------------------------------------ random numbers, time
WEAK unsigned long hz_rand64_source(const char *what) { unsigned long v; hzs_symbolic(&v, 8, what); return v; }
WEAK unsigned long hz_mt_source(unsigned long, unsigned long) { return hz_rand64_source("random"); }
static long hz_clock_now = 1600000000;
long hz_time(long *t) { if (t) *t = hz_clock_now; return hz_clock_now; }
long hz__ZNSt6chrono3_V212steady_clock3nowEv() { return hz_clock_now++; }
long hz__ZNSt6chrono3_V212system_clock3nowEv() { return hz_clock_now++; }
WEAK int hz_rand() { int v; hzs_symbolic(&v, 4, "rand"); hzs_assume(v >= 0); return v; }
void hz_srand(unsigned) {}
unsigned hz_sleep(unsigned) { hzs_sched(); return 0; }
int hz_usleep(unsigned) { hzs_sched(); return 0; }
int hz_nanosleep(const void *, void *) { hzs_sched(); return 0; }
int hz_sched_yield() { hzs_sched(); return 0; }
void (*hz_signal(int, void (*h)(int)))(int) { return h; }
// ------------------------------------------------------------------------------------------------ sockets (defaults)
WEAK long hz_send(int, const void *, size_t n, int) { return (long) n; }
WEAK long hz_recv(int, void *, size_t, int) { return -1; }
WEAK int hz_close(int) { return 0; }
WEAK int hz_socket(int, int, int) { return 3; }
WEAK int hz_bind(int, const void *, unsigned) { return 0; }
WEAK int hz_listen(int, int) { return 0; }
WEAK int hz_accept(int, void *, void *) { return -1; }
WEAK int hz_setsockopt(int, int, int, const void *, unsigned) { return 0; }
WEAK int hz_shutdown(int, int) { return 0; }
char *hz_inet_ntoa(unsigned) { return (char *) "127.0.0.1"; }
const char *hz_inet_ntop(int, const void *, char *dst, unsigned n) { if (n) { dst[0] = '1'; if (n > 1) dst[1] = 0; } return dst; }
unsigned hz_inet_addr(const char *) { return 0x0100007f; }
uint16_t hz_htons(uint16_t x) { return (uint16_t) ((x << 8) | (x >> 8)); }
uint16_t hz_ntohs(uint16_t x) { return (uint16_t) ((x << 8) | (x >> 8)); }
uint32_t hz_htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t hz_ntohl(uint32_t x) { return __builtin_bswap32(x); }
int hz_inet_pton(int, const char *, void *) { return 1; }
// ------------------------------------------------------------------------------------------------ locks
// A lock occupies the first words of the object the program provides: a mutex is {owner + 1, depth, kind}; a condition variable is
// only an address; every operation is a scheduling point.
struct hz_mtx { int owner; unsigned depth; };
static hz_mtx *mtx(void *m) { return (hz_mtx *) m; }
static int hz_kind(void *m) { return ((pthread_mutex_t *) m)->__data.__kind; }
bool hz_mutex_locked(const void *m) { return ((const hz_mtx *) m)->owner != 0; }
int hz_pthread_mutex_init(void *m, const void *) { memset(m, 0, sizeof(pthread_mutex_t)); return 0; }
int hz_pthread_mutex_destroy(void *) { return 0; }
static int lockWait(void *m) {
    hz_mtx *x = mtx(m);
    int me = (int) hzs_self() + 1;
    if (x->owner == me && hz_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x->depth++; return 0; }
    while (x->owner) hzs_wait(m);
    x->owner = me; x->depth = 1;
    return 0;
}
int hz_pthread_mutex_lock(void *m) { hzs_sched(); return lockWait(m); }
int hz_pthread_mutex_trylock(void *m) {
    hzs_sched();
    hz_mtx *x = mtx(m);
    if (x->owner) return 16;
    x->owner = (int) hzs_self() + 1; x->depth = 1;
    return 0;
}
int hz_pthread_mutex_timedlock(void *m, const void *) { if (mtx(m)->owner && hzs_choose_(2, "lock-timeout")) return 110; return hz_pthread_mutex_lock(m); }
int hz_pthread_mutex_clocklock(void *m, int, const void *t) { return hz_pthread_mutex_timedlock(m, t); }
int hz_pthread_mutex_unlock(void *m) {
    hz_mtx *x = mtx(m);
    if (!x->owner) hzs_fail("unlock of a mutex that is not locked");
    if (x->owner != (int) hzs_self() + 1) hzs_fail("unlock of a mutex held by another thread");
    if (--x->depth == 0) { x->owner = 0; hzs_wake(m); }
    hzs_sched();
    return 0;
}
// condition variables: a waiter queue is kept as a ticket list so that notify_one wakes one waiter, chosen by the scheduler
struct hz_waiter { void *cv; bool signalled; hz_waiter *next; };
static hz_waiter *hz_waiters = nullptr;
static void hz_cv_wait(void *cv, void *m, bool timed) {
    hz_mtx *x = mtx(m);
    if (x->owner != (int) hzs_self() + 1) hzs_fail("condition variable wait without holding the mutex");
    hz_waiter w{cv, false, hz_waiters};
    hz_waiters = &w;
    x->owner = 0; x->depth = 0;
    hzs_wake(m);
    if (timed && hzs_choose_(2, "wait-timeout")) { hzs_sched(); }
    else while (!w.signalled) hzs_wait(&w);
    for (hz_waiter **p = &hz_waiters; *p; p = &(*p)->next) if (*p == &w) { *p = w.next; break; }
    lockWait(m);
}
static void hz_cv_notify(void *cv, bool all) {
    hzs_sched();
    unsigned n = 0;
    for (hz_waiter *w = hz_waiters; w; w = w->next) if (w->cv == cv && !w->signalled) n++;
    if (!n) return;
    unsigned pick = all || n == 1 ? 0 : (unsigned) hzs_choose_(n, "notify-one");
    unsigned k = 0;
    for (hz_waiter *w = hz_waiters; w; w = w->next) if (w->cv == cv && !w->signalled) {
        if (all || k == pick) { w->signalled = true; hzs_wake(w); }
        k++;
    }
}
int hz_pthread_cond_init(void *, const void *) { return 0; }
int hz_pthread_cond_destroy(void *) { return 0; }
int hz_pthread_cond_wait(void *c, void *m) { hz_cv_wait(c, m, false); return 0; }
int hz_pthread_cond_timedwait(void *c, void *m, const void *) { hz_cv_wait(c, m, true); return 110; }
int hz_pthread_cond_clockwait(void *c, void *m, int, const void *) { hz_cv_wait(c, m, true); return 110; }
int hz_pthread_cond_signal(void *c) { hz_cv_notify(c, false); return 0; }
int hz_pthread_cond_broadcast(void *c) { hz_cv_notify(c, true); return 0; }
void hz__ZNSt18condition_variableC1Ev(void *c) { memset(c, 0, 48); }
void hz__ZNSt18condition_variableC2Ev(void *c) { memset(c, 0, 48); }
void hz__ZNSt18condition_variableD1Ev(void *) {}
void hz__ZNSt18condition_variableD2Ev(void *) {}
void hz__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, void **lk) { hz_cv_wait(c, lk[0], false); }
void hz__ZNSt18condition_variable10notify_oneEv(void *c) { hz_cv_notify(c, false); }
void hz__ZNSt18condition_variable10notify_allEv(void *c) { hz_cv_notify(c, true); }
// named and unnamed semaphores: {count, named}
struct hz_sem { int count; };
struct hz_named { char name[160]; sem_t sem; bool used; };
static hz_named hz_sems[8];
void *hz_sem_open(const char *name, int, unsigned, unsigned value) {
    for (auto &s: hz_sems) if (s.used && strcmp(s.name, name) == 0) return &s.sem;
    for (auto &s: hz_sems) if (!s.used) {
        s.used = true;
        size_t i = 0;
        for (; name[i] && i < 159; i++) s.name[i] = name[i];
        s.name[i] = 0;
        ((hz_sem *) &s.sem)->count = (int) value;
        return &s.sem;
    }
    hzs_bound("too many named semaphores");
    return nullptr;
}
int hz_sem_unlink(const char *name) { for (auto &s: hz_sems) if (s.used && strcmp(s.name, name) == 0) s.used = false; return 0; }
int hz_sem_close(void *) { return 0; }
int hz_sem_init(void *s, int, unsigned v) { ((hz_sem *) s)->count = (int) v; return 0; }
int hz_sem_destroy(void *) { return 0; }
int hz_sem_wait(void *s) { hzs_sched(); while (((hz_sem *) s)->count <= 0) hzs_wait(s); ((hz_sem *) s)->count--; return 0; }
int hz_sem_trywait(void *s) { hzs_sched(); if (((hz_sem *) s)->count <= 0) return -1; ((hz_sem *) s)->count--; return 0; }
int hz_sem_post(void *s) { ((hz_sem *) s)->count++; hzs_wake(s); hzs_sched(); return 0; }
int hz_sem_getvalue(void *s, int *v) { *v = ((hz_sem *) s)->count; return 0; }
// ------------------------------------------------------------------------------------------------ std::thread
int hz_threads_started = 0, hz_threads_finished = 0;
struct hz_tstart { void *state; bool done; unsigned long id; hz_tstart *next; };
static hz_tstart *hz_tlist = nullptr;
static void hz_trampoline(void *p) {
    hz_tstart *t = (hz_tstart *) p;
    // std::thread::_State: vtable {~_State (complete), ~_State (deleting), _M_run}
    void **vt = *(void ***) t->state;
    ((void (*)(void *)) vt[2])(t->state);
    ((void (*)(void *)) vt[1])(t->state);
    t->done = true;
    hz_threads_finished++;
    hzs_wake(t);
}
void hz__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(unsigned long *id, void **state, void (*)()) {
    hz_tstart *t = new hz_tstart();
    t->state = *state; *state = nullptr; t->done = false;
    t->next = hz_tlist; hz_tlist = t;
    hz_threads_started++;
    t->id = hzs_thread(hz_trampoline, t) + 1;
    *id = t->id;
    hzs_sched();
}
void hz__ZNSt6thread4joinEv(unsigned long *id) {
    for (hz_tstart *t = hz_tlist; t; t = t->next) if (t->id == *id) { while (!t->done) hzs_wait(t); *id = 0; return; }
    hzs_fail("join of a thread that is not joinable");
}
void hz__ZNSt6thread6detachEv(unsigned long *id) { if (!*id) hzs_fail("detach of a thread that is not joinable"); *id = 0; }
unsigned hz__ZNSt6thread20hardware_concurrencyEv() { return 4; }
void hz__ZNSt6thread6_StateD2Ev(void *) {}
void hz__ZNSt6thread6_StateD1Ev(void *) {}
unsigned long hz_pthread_self() { return hzs_self() + 1; }
int hz_pthread_once(int *ctl, void (*f)()) { hzs_sched(); if (!*ctl) { *ctl = 1; f(); } return 0; }
}
