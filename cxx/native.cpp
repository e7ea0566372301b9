// Bounded execution of the real code (compiled unchanged) against a deterministic stand-in of the operating
// system.  Used to turn a failed proof obligation into a concrete failing history, and as labelled bounded
// fallback where an obligation could not be decided.   usage: native PROP MAXSECONDS [LEVEL]
// Nothing outside the process is touched: every shm_*/sem_*/mmap/close call of the code ends here.
#include "drv_shm.cpp"
#include <sys/syscall.h>
#include <sys/stat.h>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <fstream>
#include <set>
#include <map>
#include <vector>
#include <functional>

// ------------------------------------------------------------------------------------------------ state
static const int ENV = 99;
struct Shm { std::string name; char* area = nullptr; size_t alen = 0; char* base = nullptr; size_t size = 0; };
struct FdE { Shm* o; bool open; int owner; bool sized; };
struct SemObj { std::string name; int value; int holder; int posts; };
struct Handle { SemObj* o; bool open; int owner; };
static std::map<std::string, Shm*> shms;
static std::map<std::string, SemObj*> sems;
static std::vector<FdE> fds;                 // number = 5000 + index
static std::vector<Handle*> handles;
static std::vector<Shm*> allshm;
static std::vector<SemObj*> allsem;
static bool foreign_unlink = false;
static long vnow = 1000000000L;              // virtual time, ns
static bool inside = false;                  // code under test is running
static int cur = 0;                          // endpoint whose operation is running
static std::string curop;
static int ncall = 0;                        // environment calls of the current operation
struct Fault { int op, call; int err; bool sticky; };
static Fault fault{-1, -1, 0, false};
static int opindex = 0;
static std::string prop = "C01";
static std::string trace;                    // history so far
static std::vector<std::string> viol;
static jmp_buf escape; static sigjmp_buf segv_escape; static bool in_rw = false;
static int n_sleep = 0, n_try = 0, n_block = 0, n_timed = 0, n_acq = 0, n_acqfail = 0, n_post = 0, n_postfail = 0, n_tryfail = 0, n_unl = 0, n_resfail = 0, n_faults = 0, n_semopen = 0, n_trunc = 0, n_create = 0;
static bool rw_safe = false, rw_alive = false;
static std::string path[9];
static std::function<void()> on_event, on_sleep;
static std::map<int, std::set<std::string>> used; // names of memory (m...) and locks (s...) each endpoint used

static void bad(const char* p, const std::string& what) {
    if (prop != p && prop != "ALL") return;
    viol.push_back(std::string(p) + ": " + what + " | history: " + trace);
}
static bool failing(int* err) {
    ncall++;
    if (fault.op == opindex && (fault.call == ncall || (fault.sticky && ncall >= fault.call))) { *err = fault.err; n_faults++; return true; }
    return false;
}
static Shm* datashm() { auto i = shms.find(path[0]); return i == shms.end() ? nullptr : i->second; }
static void protect(bool open) {
    for (Shm* d : allshm) if (d->name == path[0] && d->area) mprotect(d->area, d->alen, open ? PROT_READ | PROT_WRITE : PROT_NONE);
}
static void data_access() {
    if (!in_rw) { protect(true); return; }
    bool ok = rw_alive;
    if (rw_safe) { auto s = sems.find(path[7]); ok = ok && s != sems.end() && s->second->holder == cur && n_acq > 0; }
    protect(ok);
}
static void* area(size_t n, char** base) {
    size_t pg = 4096, r = (n + pg - 1) / pg * pg; if (r == 0) r = pg;
    char* a = (char*)syscall(SYS_mmap, 0, r + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(a, pg, PROT_NONE); mprotect(a + pg + r, pg, PROT_NONE);
    *base = a + pg + (r - n); return a;
}
static int shm_value(int role, int def) {
    auto i = shms.find(path[role]); if (i == shms.end() || !i->second->base || i->second->size < (role == 6 ? 1u : 4u)) return def;
    if (role == 6) return *(unsigned char*)i->second->base;
    int v; memcpy(&v, i->second->base, 4); return v;
}
static int sem_holder(int role) { auto i = sems.find(path[role]); return i == sems.end() ? 0 : i->second->value > 0 ? 0 : i->second->holder; }
static void event() { if (inside && on_event) on_event(); }

// ------------------------------------------------------------------------------------------------ stand-ins
extern "C" {
int shm_open(const char* n, int fl, mode_t) {
    event(); int e; used[cur].insert(std::string("m") + n);
    if (failing(&e)) { errno = e; if ((fl & O_CREAT) || cur >= 10) n_resfail++; return -1; } // a server may probe for leftovers
    auto i = shms.find(n);
    if (i == shms.end()) {
        if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
        Shm* s = new Shm; s->name = n; shms[n] = s; allshm.push_back(s); i = shms.find(n); n_create++;
    } else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; n_resfail++; return -1; }
    fds.push_back({i->second, true, cur, false});
    return 5000 + (int)fds.size() - 1;
}
int shm_unlink(const char* n) {
    event(); n_unl++;
    if (cur >= 10 && cur < 20) bad("C11", std::string("a client removes the name ") + n);
    for (SemObj* o : allsem) if (o->name == path[8] && o->value <= 0 && o->holder != cur) foreign_unlink = true; // known limitation: close of a stopped server (see DESIGN.md)
    auto i = shms.find(n); if (i == shms.end()) { errno = ENOENT; return -1; }
    shms.erase(i); return 0;
}
static FdE* fdof(int fd, const char* what) {
    int k = fd - 5000;
    if (k < 0 || k >= (int)fds.size() || !fds[k].open) {
        bad("C11", std::string("a descriptor that is not open is used by ") + what);
        bad("C12", std::string("a descriptor that could not be opened is used by ") + what);
        return nullptr;
    }
    if (fds[k].owner != cur) bad("C11", std::string("a descriptor of another endpoint is used by ") + what);
    return &fds[k];
}
int ftruncate(int fd, off_t len) __THROW {
    event(); FdE* f = fdof(fd, "ftruncate"); if (!f) { errno = EBADF; return -1; }
    int e; if (failing(&e)) { errno = e; n_resfail++; return -1; }
    n_trunc++;
    Shm* s = f->o; f->sized = true;
    if ((size_t)len == s->size && s->base) return 0;
    if (len > (1L << 30)) { errno = ENOSPC; n_resfail++; return -1; }
    char* b; char* a = (char*)area(len, &b);
    if (s->base) { mprotect(s->area, s->alen, PROT_READ | PROT_WRITE); memcpy(b, s->base, std::min((size_t)len, s->size)); }
    s->area = a + 4096; s->alen = (len + 4095) / 4096 * 4096; if (!s->alen) s->alen = 4096; s->base = b; s->size = len;
    if (s->name == path[0] && in_rw) data_access();
    return 0;
}
void* mmap(void*, size_t len, int pr, int fl, int fd, off_t off) __THROW {
    if (fd < 5000) return (void*)syscall(SYS_mmap, 0, len, pr, fl, fd, off);
    event(); FdE* f = fdof(fd, "mmap"); if (!f) { errno = EBADF; return MAP_FAILED; }
    int e; if (failing(&e)) { errno = e; n_resfail++; return MAP_FAILED; }
    if (len == 0) { errno = EINVAL; n_resfail++; return MAP_FAILED; }
    if (!f->o->base || len > f->o->size) { // pages past the end: any access faults
        char* b; char* a = (char*)area(len, &b); if (f->o->base) return f->o->base; mprotect(a, 4096 * 3, PROT_NONE); return b; }
    return f->o->base;
}
int munmap(void* a, size_t n) __THROW { (void)a; (void)n; return 0; }
int close(int fd) {
    if (!inside || (fd >= 0 && fd < 5000)) { if (inside) { bad("C11", "closes a descriptor it never opened (" + std::to_string(fd) + ")"); errno = EBADF; return -1; } return syscall(SYS_close, fd); }
    event(); FdE* f = fdof(fd, "close"); if (!f) { errno = EBADF; return -1; }
    f->open = false; return 0;
}
sem_t* sem_open(const char* n, int fl, ...) __THROW {
    event(); int e; n_semopen++; used[cur].insert(std::string("s") + n);
    if (failing(&e)) { errno = e; n_resfail++; return SEM_FAILED; }
    auto i = sems.find(n);
    if (i == sems.end()) {
        if (!(fl & O_CREAT)) { errno = ENOENT; n_resfail++; return SEM_FAILED; }
        va_list ap; va_start(ap, fl); va_arg(ap, int); unsigned v = va_arg(ap, unsigned); va_end(ap);
        SemObj* s = new SemObj{n, (int)v, 0, 0}; allsem.push_back(s); sems[n] = s; i = sems.find(n);
        if (v != 1) bad("C05", "the lock is not created available to exactly one holder");
    } else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; n_resfail++; return SEM_FAILED; }
    Handle* h = new Handle{i->second, true, cur}; handles.push_back(h);
    return (sem_t*)h;
}
static Handle* hof(sem_t* p, const char* what) {
    for (Handle* h : handles) if ((sem_t*)h == p) {
        if (!h->open) break;
        if (h->owner != cur) bad("C11", std::string("a lock handle of another endpoint is used by ") + what);
        return h; }
    bad("C11", std::string("a lock handle that is not open is used by ") + what);
    bad("C12", std::string("a lock that could not be opened is used by ") + what);
    return nullptr;
}
int sem_close(sem_t* p) __THROW { event(); Handle* h = hof(p, "sem_close"); if (!h) { errno = EINVAL; return -1; } h->open = false; return 0; }
static std::set<int> forcing; // endpoints constructed with forced reconnection
int sem_unlink(const char* n) __THROW {
    event(); n_unl++;
    if (cur >= 10 && cur < 20) bad("C11", std::string("a client removes the name ") + n);
    if ((curop == "ctor" || curop == "run") && !forcing.count(cur)) bad("C06", "without forced reconnection the existing lock is removed");
    auto i = sems.find(n); if (i == sems.end()) { errno = ENOENT; return -1; }
    sems.erase(i); return 0;
}
static int acquire(sem_t* p, const char* what, int busy) {
    Handle* h = hof(p, what); if (!h) { errno = EINVAL; n_acqfail++; return -1; }
    int e; if (failing(&e)) { errno = e; n_acqfail++; return -1; }
    if (h->o->value > 0) { h->o->value--; h->o->holder = cur; n_acq++; if (in_rw) data_access(); return 0; }
    n_acqfail++;
    if (busy < 0) { inside = false; longjmp(escape, 1); }
    errno = busy; return -1;
}
int sem_wait(sem_t* p) { event(); n_block++; if (in_rw) bad("C04", "blocking lock wait in a read or write"); return acquire(p, "sem_wait", -1); }
int sem_trywait(sem_t* p) __THROW { event(); n_try++; int r = acquire(p, "sem_trywait", EAGAIN); if (r) n_tryfail++; return r; }
int sem_timedwait(sem_t* p, const struct timespec* t) {
    event(); n_timed++; if (in_rw) bad("C04", "timed lock wait in a read or write");
    long d = t->tv_sec * 1000000000L + t->tv_nsec - vnow;
    if (d < 99000 || d > 10000000000L || t->tv_nsec < 0 || t->tv_nsec >= 1000000000L) bad("C06", "a timed acquisition does not wait for the configured time (" + std::to_string(d) + " ns)");
    int r = acquire(p, "sem_timedwait", ETIMEDOUT); if (r && d > 0) vnow += d; return r;
}
int sem_post(sem_t* p) __THROW {
    event(); Handle* h = hof(p, "sem_post"); if (!h) { errno = EINVAL; return -1; }
    int e; if (failing(&e)) { errno = e; n_postfail++; return -1; }
    bool held = h->o->value == 0 && h->o->holder == cur;
    if (!held) {
        if (h->o->name == path[7]) { bad("C05", "the data lock is given back by an endpoint that does not hold it"); bad("C03", "a lock is given back that was not acquired"); }
        else { bad("C08", "the server lock is given back by an endpoint that does not hold it"); }
    }
    if (h->o->name == path[8] && held && shm_value(6, 0) != 0) bad("C07", "the server lock is given back while the running flag is set");
    h->o->value++; h->o->holder = 0; n_post++; if (in_rw) data_access(); return 0;
}
int clock_gettime(clockid_t, struct timespec* t) __THROW { t->tv_sec = vnow / 1000000000L; t->tv_nsec = vnow % 1000000000L; return 0; }
int nanosleep(const struct timespec* t, struct timespec*) {
    event(); n_sleep++; vnow += t->tv_sec * 1000000000L + t->tv_nsec + 1;
    if (in_rw) bad("C04", "sleep in a read or write");
    if (inside && on_sleep) on_sleep();
    if (inside && n_sleep > 40) { inside = false; longjmp(escape, 1); }
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }
int usleep(useconds_t u) { struct timespec t{0, (long)u * 1000}; return nanosleep(&t, nullptr); }
}
static void on_segv(int, siginfo_t*, void*) { siglongjmp(segv_escape, 1); }

// ------------------------------------------------------------------------------------------------ endpoints
struct Api {
    const char* id; int esz; int kind; bool row;          // kind 0 double 1 float 2 int 3 bool
    unsigned long (*ssize)(), (*csize)();
    std::function<void(void*, int, int, const std::string&, const std::string&, bool, int, bool, bool)> sctor;
    std::function<void(void*, const std::string&, const std::string&, bool, int, bool)> cctor;
    std::map<std::string, std::function<long(void*)>> s, c;
    std::map<std::string, std::function<bool(void*, void*, long, long, long, long, int, int)>> srw, crw;
};
#define OPV(m, T, e, o) m[#o] = [](void* p) -> long { drv_##e##_##o##_##T((decltype(p))p ? (TY_##e##_##T*)p : nullptr); return 0; };
#define OPI(m, T, e, o) m[#o] = [](void* p) -> long { return (long)drv_##e##_##o##_##T((TY_##e##_##T*)p); };
#define RWR(m, T, e, o, S) m[#o] = [](void* p, void* d, long r, long c, long ou, long, int i, int j) { return drv_##e##_##o##_##T((TY_##e##_##T*)p, (S*)d, r, c, ou, i, j); };
#define RWV(m, T, e, o, S) m[#o] = [](void* p, void* d, long r, long c, long ou, long in, int i, int j) { return drv_##e##_##o##_##T((TY_##e##_##T*)p, (S*)d, r, c, ou, in, i, j); };
#define API(T, S, K, R) \
typedef SRV_##T TY_srv_##T; typedef CLT_##T TY_clt_##T; \
static Api api_##T() { Api a; a.id = #T; a.esz = sizeof(S); a.kind = K; a.row = R; a.ssize = drv_srv_sizeof_##T; a.csize = drv_clt_sizeof_##T; \
    a.sctor = drv_srv_ctor_##T; a.cctor = drv_clt_ctor_##T; \
    OPV(a.s, T, srv, dtor) OPV(a.s, T, srv, run) OPV(a.s, T, srv, stop) OPV(a.s, T, srv, close) OPV(a.s, T, srv, acq) OPV(a.s, T, srv, rel) \
    OPI(a.s, T, srv, isrunning) OPI(a.s, T, srv, nclients) OPI(a.s, T, srv, nrows) OPI(a.s, T, srv, ncols) OPI(a.s, T, srv, dtype) OPI(a.s, T, srv, layout) \
    OPV(a.c, T, clt, dtor) OPV(a.c, T, clt, attach) OPV(a.c, T, clt, detach) OPV(a.c, T, clt, close) OPV(a.c, T, clt, acq) OPV(a.c, T, clt, rel) \
    OPI(a.c, T, clt, isattached) OPI(a.c, T, clt, nrows) OPI(a.c, T, clt, ncols) OPI(a.c, T, clt, dtype) OPI(a.c, T, clt, layout) \
    RWR(a.srw, T, srv, writeref, S) RWR(a.srw, T, srv, readref, S) RWV(a.srw, T, srv, writeview, S) RWV(a.srw, T, srv, readview, S) \
    RWR(a.crw, T, clt, writeref, S) RWR(a.crw, T, clt, readref, S) RWV(a.crw, T, clt, writeview, S) RWV(a.crw, T, clt, readview, S) \
    return a; }
API(dR, double, 0, true) API(dC, double, 0, false) API(fR, float, 1, true) API(fC, float, 1, false)
API(iR, int, 2, true) API(iC, int, 2, false) API(bR, bool, 3, true) API(bC, bool, 3, false)
static std::vector<Api> apis;

static void put(int kind, char* p, int v) { switch (kind) { case 0: *(double*)p = v + 0.25; break; case 1: *(float*)p = v + 0.5f; break; case 2: *(int*)p = v; break; default: *(unsigned char*)p = v & 1; } }

struct End { int id = 0; Api* a = nullptr; bool server = false, alive = false, safe = true, constructed = false; void* mem = nullptr;
    bool init = false, run = false, att = false, user = false, closed = false; int rows = 0, cols = 0; };
static std::string base = "obj", ns = "space";
static End E1, E2, K1, K2, K3;
static std::vector<char> shadow;             // what the shared data must contain
static int SH_rows = 0, SH_cols = 0; static Api* SH_api = nullptr;
static int attached() { return K1.att + K2.att + K3.att; }

static void paths() {
    inside = false; char* buf = (char*)malloc(drv_sizeof_cfg()); SharedMemConfig* c = drv_cfg(buf, base, ns);
    for (int i = 0; i < 9; i++) path[i] = *drv_cfg_item(c, i);
    c->~SharedMemConfig(); free(buf);
}
static bool lost = false; // a release failed: the lock is lost, nothing is required of later operations
static bool crashed = false, blocked = false, threw = false;
static long call(End& e, const std::string& op, const std::function<long()>& f) {
    cur = e.id; curop = op; opindex++; ncall = 0;
    n_sleep = n_try = n_block = n_timed = n_acq = n_acqfail = n_post = n_postfail = n_tryfail = n_unl = n_resfail = n_faults = n_semopen = n_trunc = n_create = 0;
    trace += (trace.empty() ? "" : "; ") + std::string(e.server ? "server" : "client") + std::to_string(e.id) + "." + op;
    if (fault.op == opindex) trace += "[system call " + std::to_string(fault.call) + (fault.sticky ? " and later" : "") + " fails, errno " + std::to_string(fault.err) + "]";
    volatile long r = 0; crashed = blocked = threw = false;
    data_access();
    if (setjmp(escape)) { blocked = true; in_rw = false; data_access(); return 0; }
    if (sigsetjmp(segv_escape, 1)) { crashed = true; inside = false; in_rw = false; data_access(); return 0; }
    inside = true;
    try { r = f(); } catch (...) { threw = true; }
    inside = false; in_rw = false; data_access();
    event();
    return r;
}
static void dead(End& e) { e.alive = false; }
static void metas_ok(End& e, const char* when) {
    if (shm_value(1, -7) != e.rows || shm_value(2, -7) != e.cols) bad("C07", std::string("wrong shape published ") + when);
    if (shm_value(3, -7) != (int)e.a->s["dtype"](e.mem)) bad("C07", std::string("wrong element type published ") + when);
    if (shm_value(4, -7) != (int)e.a->s["layout"](e.mem)) bad("C07", std::string("wrong layout published ") + when);
    Shm* d = datashm(); if (!d || d->size != (size_t)e.rows * e.cols * e.a->esz) bad("C07", std::string("data memory missing or of the wrong size ") + when);
}
static void invariants() {
    // whatever the moment, the flag is visible only while some server holds its lock and everything is published
    if (shm_value(6, 0) == 1) {
        int h = sem_holder(8);
        bool any = false; for (SemObj* o : allsem) if (o->name == path[8] && o->value <= 0) any = true;   // (its name may have been removed by the close of a stopped server)
        if (!any) bad("C07", "the running flag is visible while no server holds the server lock");
        End* e = h == 1 ? &E1 : h == 2 ? &E2 : nullptr;
        if (e && e->mem && !foreign_unlink) { bool i = inside; inside = false; metas_ok(*e, "while the running flag is visible"); inside = i; }
    }
    int h = sem_holder(7); auto s = sems.find(path[7]);
    if (s != sems.end() && s->second->value > 1) bad("C05", "the data lock is available to more than one holder");
    (void)h;
}
static void crash_check(End& e, const std::string& op) {
    (void)e;
    if (!crashed) return;
    bool rw = op.find("write") == 0 || op.find("read") == 0;
    if (rw) {
        if (rw_alive && rw_safe && n_acq == 0) bad("C03", "data is touched without holding the lock");
        if (!rw_alive) bad("C04", "data is touched by an endpoint that is not running / attached");
        bad("C02", "memory outside the tensor is accessed"); bad("C01", "invalid memory access");
    } else { bad("C12", "invalid memory access (missing resource used)"); bad("C11", "invalid memory access"); bad("C07", "invalid memory access"); }
}
static void after(End& e, const std::string& op) {
    if (crashed || blocked) return;
    if (lost) return;
    bool pf = n_postfail > 0; if (pf) lost = true;
    int td = sem_holder(7) == e.id, ts = sem_holder(8) == e.id;
    bool rw = op.find("write") == 0 || op.find("read") == 0;
    if (e.constructed && !pf) {
        int want = e.init || e.user;
        if (!e.closed && td != want && !rw) bad("C05", want ? "the endpoint lost the data lock" : "the endpoint keeps the data lock after the operation");
        if (!e.closed && td != want && rw) { bad("C05", "the data lock is not as it was before the call"); bad("C03", "the lock is not given back exactly once"); }
        if (e.closed && td > want) bad("C05", "a closed endpoint keeps the data lock");
        if (e.server && ts != e.run) bad("C08", e.run ? "a running server does not hold the server lock" : "a server that is not running holds the server lock");
    }
    if (pf && !threw && (rw || op == "acq" || op == "rel" || op == "run" || op == "attach" || op == "ctor" || op == "nclients")) bad("C06", "a failed release is not reported");
    if (e.server && e.constructed) {
        bool isr = e.a->s["isrunning"](e.mem);
        if (isr != e.run) bad("C08", isr ? "the server reports running but is not" : "the running server does not report running");
        if (op != "dtor" && e.run && shm_value(6, 0) != 1 && shms.count(path[6])) bad("C07", "the flag of a running server is not set");
        if (op == "stop" && !threw && shm_value(6, 0) != 0 && !(e.id == 1 ? E2 : E1).run) bad("C07", "the running flag is not cleared by stop");
        if (op == "close" && !threw && shm_value(6, 0) != 0 && sem_holder(8) == 0) bad("C07", "the running flag is not cleared by close");
        if (!e.closed && ((int)e.a->s["nrows"](e.mem) != e.rows || (int)e.a->s["ncols"](e.mem) != e.cols)) bad("C07", "the accessors do not report the constructed shape");
    }
    if (!e.server && e.constructed) {
        bool isa = e.a->c["isattached"](e.mem);
        if (isa != e.att && !pf) { bad("C09", isa ? "the client reports attached but is not" : "the attached client does not report it"); bad("C10", "attached state wrong"); }
    }
    if (shms.count(path[5]) && !pf && !(e.server && !e.constructed) && (SH_api) && shm_value(5, attached()) != attached()) bad("C10", "the client counter is " + std::to_string(shm_value(5, -1)) + " with " + std::to_string(attached()) + " attached clients");
    if (e.closed || !e.constructed) {
        for (auto& f : fds) if (f.open && f.owner == e.id) { bad("C11", "a descriptor of " + f.o->name + " is still open after " + op); break; }
        for (auto* h : handles) if (h->open && h->owner == e.id) { bad("C11", "a lock handle of " + h->o->name + " is still open after " + op); break; }
    }
    // C06 acquisition reports
    if ((op == "run" || op == "attach" || op == "nclients" || op == "acq") && !threw && n_acq == 0 && n_acqfail > 0) bad("C06", "a failed acquisition is not reported by " + op);
}
static void ctor_server(End& e, Api* a, int rows, int cols, bool force, bool safe) {
    e.a = a; e.server = true; e.safe = safe; e.rows = rows; e.cols = cols; e.init = e.run = e.user = e.closed = false; e.constructed = false;
    e.mem = calloc(1, a->ssize()); if (force) forcing.insert(e.id); else forcing.erase(e.id);
    int h7 = sem_holder(7), h8 = sem_holder(8); int flag = shm_value(6, 0);
    std::vector<char> before; Shm* d = datashm(); if (d && d->base) before.assign(d->base, d->base + d->size);
    int r0 = shm_value(1, -1), c0 = shm_value(2, -1), k0 = shm_value(5, -1);
    call(e, std::string("ctor(") + std::to_string(rows) + "x" + std::to_string(cols) + (force ? ",force" : "") + (safe ? "" : ",unsafe") + ")<" + a->id + ">", [&]() -> long { a->sctor(e.mem, rows, cols, base, ns, false, 2, force, safe); return 0; });
    curop = "ctor";
    crash_check(e, "ctor");
    if (crashed || blocked) return;
    if (!threw) { e.constructed = true; e.init = true; if (attached()) lost = true; /* clients of the previous server: nothing is required of them */ }
    after(e, "ctor");
    if (!threw) {
        if (n_resfail) bad("C12", "construction succeeds although a shared object or lock could not be created");
        if (shm_value(6, 7) != 0) bad("C07", "construction leaves the running flag set");
        if (shm_value(5, 7) != 0) bad("C10", "construction does not reset the client counter");
        if (sem_holder(7) != e.id) bad("C07", "the constructed server does not hold the data lock");
        Shm* d2 = datashm(); if (!d2 || d2->size != (size_t)rows * cols * a->esz) bad("C12", "the data memory is missing or has the wrong size");
        if (!force && h8 != 0 && h8 != e.id) bad("C08", "a second server is constructed while one is running");
        if (!force && h7 != 0) bad("C06", "construction succeeds although the data lock was not granted");
        SH_rows = rows; SH_cols = cols; SH_api = a; Shm* d3 = datashm();
        shadow.assign(d3 && d3->base ? d3->base : nullptr, d3 && d3->base ? d3->base + d3->size : nullptr);
    } else {
        if (!n_postfail && sem_holder(7) == e.id) { bad("C05", "a failed construction keeps the data lock"); bad("C12", "a failed construction keeps the data lock"); }
        if (sem_holder(8) == e.id && !n_postfail) bad("C08", "a failed construction keeps the server lock");
        if (force && n_faults == 0) bad("C06", "with forced reconnection construction fails although no system call failed");
        if (n_faults == 0 && h7 == 0 && h8 == 0) { bad("C12", "construction fails although every resource is available"); bad("C07", "construction fails although every resource is available"); bad("C08", "construction fails although no other server is running"); }
        e.id = e.id;
    }
    if (!force && h8 != 0 && (h8 == 1 || h8 == 2) && h8 != e.id) {
        Shm* d2 = datashm(); std::vector<char> now; if (d2 && d2->base) now.assign(d2->base, d2->base + d2->size);
        if (now != before || shm_value(6, 0) != flag || shm_value(1, -1) != r0 || shm_value(2, -1) != c0 || shm_value(5, -1) != k0) bad("C08", "constructing a second server changes the running server's memory");
        if (sem_holder(8) != h8) bad("C08", "constructing a second server changes the running server's lock");
        if (!threw) bad("C08", "a second server can be constructed");
    }
}
static void op_server(End& e, const std::string& op) {
    if (!e.constructed || !e.mem) return;
    int h8 = sem_holder(8);
    long r = call(e, op, [&]() { return e.a->s[op](e.mem); });
    crash_check(e, op); if (crashed || blocked) { return; }
    bool was = e.run, wasclosed = e.closed;
    if (op == "run" && !threw) { e.run = true; e.init = false; }
    if (op == "stop" && !threw) e.run = false;
    if ((op == "close" || op == "dtor") && !threw) { e.run = false; e.closed = true; if (e.init) e.init = sem_holder(7) == e.id; if (e.user) e.user = sem_holder(7) == e.id; }
    if (op == "acq" && !threw) { e.user = true; if (n_acq != 1) bad("C06", "the manual lock reports success without being granted"); }
    if (op == "acq" && threw && n_acq) bad("C06", "the manual lock was granted but reported as failed");
    if (op == "acq" && threw && !n_acqfail && !wasclosed) bad("C06", "the manual lock fails although nothing failed");
    if (op == "rel" && !threw) { e.user = false; if (n_post != 1) bad("C06", "the manual unlock reports success without giving the lock back"); }
    if (op == "rel" && threw && !n_postfail && !wasclosed) bad("C06", "the manual unlock fails although nothing failed");
    if (op == "run") {
        if (!threw && h8 != 0 && h8 != e.id) bad("C08", "run succeeds while another server is running");
        if (threw && !was && h8 == 0 && shm_value(6, 0) != 0) bad("C08", "a failed run leaves the running flag set");
        if (!threw && !was) { metas_ok(e, "after run"); if (shm_value(6, 0) != 1) bad("C07", "run does not set the running flag"); }
        if (threw && n_faults == 0 && !wasclosed && h8 == 0 && n_acqfail == 0) bad("C08", "run fails although nothing prevents it");
    }
    if (op == "nclients" && !threw && (int)r != attached() && shms.count(path[5])) bad("C10", "the server reports " + std::to_string(r) + " clients, " + std::to_string(attached()) + " are attached");
    if (op == "close" && !threw && !wasclosed && e.id == 1 && !E2.constructed)
        for (int i : {0, 7, 8}) if (i ? sems.count(path[i]) : shms.count(path[0])) bad("C11", "close leaves the name " + path[i]);
    if (wasclosed && (op == "close" || op == "stop" || op == "dtor") && threw) bad("C11", "closing again throws");
    if (op == "dtor") { e.constructed = false; free(e.mem); e.mem = nullptr; }
    after(e, op);
}
static void ctor_client(End& e, Api* a, bool safe) {
    e.a = a; e.server = false; e.safe = safe; e.att = e.user = e.closed = false; e.mem = calloc(1, a->csize());
    call(e, std::string("ctor") + (safe ? "" : "(unsafe)") + "<" + a->id + ">", [&]() -> long { a->cctor(e.mem, base, ns, false, 2, safe); return 0; });
    e.constructed = !threw && !crashed && !blocked;
    if (crashed) bad("C12", "constructing a client accesses invalid memory");
}
static void op_client(End& e, const std::string& op) {
    if (!e.constructed || !e.mem) return;
    int flag0 = shm_value(6, 0);
    bool was = e.att, wasclosed = e.closed; int cnt0 = shm_value(5, -1);
    int dt = shm_value(3, -1), ly = shm_value(4, -1), own_dt = 0, own_ly = 0;
    if (op == "attach") { own_dt = (int)e.a->c["dtype"](e.mem); own_ly = (int)e.a->c["layout"](e.mem); }
    call(e, op, [&]() { return e.a->c[op](e.mem); });
    crash_check(e, op); if (crashed) return;
    if (blocked) { if (op == "attach" && 0) bad("C09", ""); return; }
    if (op == "attach") {
        if (!threw) {
            e.att = true; e.closed = false;
            if (!was) {
                if (n_resfail) bad("C12", "attaching succeeds although a shared object or lock could not be opened");
                if (flag0 != 1 && shm_value(6, 0) != 1) bad("C09", "attached without the running flag");
                if (dt != own_dt && shm_value(3, -1) != own_dt) bad("C09", "attached despite a different element type");
                if (ly != own_ly && shm_value(4, -1) != own_ly) bad("C09", "attached despite a different memory layout");
                int r = e.a->c["nrows"](e.mem), c = e.a->c["ncols"](e.mem);
                if (r != shm_value(1, -1) || c != shm_value(2, -1)) bad("C09", "the client does not adopt the server's shape");
                if (cnt0 >= 0 && shm_value(5, -1) != cnt0 + 1) bad("C10", "attach changes the counter by " + std::to_string(shm_value(5, -1) - cnt0));
                e.rows = r; e.cols = c;
            }
        } else {
            if (e.closed) e.closed = false;
            if (!was && !n_postfail) {
                if (sem_holder(7) == e.id && !e.user) { bad("C09", "a failed attach keeps the data lock"); bad("C05", "a failed attach keeps the data lock"); }
                if (cnt0 >= 0 && shm_value(5, -1) != cnt0 && shms.count(path[5])) { bad("C09", "a failed attach changes the counter"); bad("C10", "a failed attach changes the counter"); }
            }
            if (n_faults == 0 && dt == own_dt && ly == own_ly && flag0 == 1 && n_acqfail == 0 && !was && SH_rows > 0 && SH_cols > 0) bad("C09", "attaching to a compatible running server fails");
        }
    }
    if ((op == "detach" || op == "close" || op == "dtor") && !threw) {
        e.att = false; if (op != "detach") e.closed = true;
        if (cnt0 >= 0 && shms.count(path[5]) && shm_value(5, -1) != cnt0 - (was ? 1 : 0) && !n_postfail) bad("C10", op + (was ? " of an attached client" : " of a detached client") + " changes the counter by " + std::to_string(shm_value(5, -1) - cnt0));
        if (op != "detach" && e.user) e.user = sem_holder(7) == e.id;
    }
    if (wasclosed && (op == "close" || op == "detach" || op == "dtor") && threw) bad("C11", "closing again throws");
    if (op == "acq" && !threw) { e.user = true; if (n_acq != 1) bad("C06", "the manual lock reports success without being granted"); }
    if (op == "acq" && threw && n_acq) bad("C06", "the manual lock was granted but reported as failed");
    if (op == "acq" && threw && !n_acqfail && was) bad("C06", "the manual lock fails although nothing failed");
    if (op == "rel" && !threw) { e.user = false; if (n_post != 1) bad("C06", "the manual unlock reports success without giving the lock back"); }
    if (op == "rel" && threw && !n_postfail && was) bad("C06", "the manual unlock fails although nothing failed");
    if (op == "dtor") { e.constructed = false; e.att = false; free(e.mem); e.mem = nullptr; }
    after(e, op);
}
// one read or write; the caller's tensor lives in a larger buffer whose rest must not change
static int seq = 1;
static void op_rw(End& e, const std::string& op, long r, long c, int row, int col, int extra, int inner) {
    if (!e.constructed || !e.mem) return;
    Api* a = e.a; bool view = op.find("view") != std::string::npos, wr = op.find("write") == 0;
    bool alive = e.server ? e.run : e.att;
    int in = view ? inner : 1;
    long rr = std::max(r, 0L), cc = std::max(c, 0L); if (rr > 64 || cc > 64) { rr = std::min(rr, 64L); cc = std::min(cc, 64L); }
    long outer = (a->row ? cc : rr) * in + extra; if (outer <= 0) outer = 1;
    size_t n = (size_t)(rr + 1) * (cc + 1) * (in + 1) * 2 + (size_t)outer * (std::max(rr, cc) + 2) + 16;
    char* b; char* ar = (char*)area(n * a->esz, &b);
    for (size_t i = 0; i < n; i++) put(a->kind, b + i * a->esz, (int)(seq * 7 + i * 3 + i / 5));
    seq++;
    std::vector<char> before(b, b + n * a->esz), sh0 = shadow;
    auto uidx = [&](long i, long j) { return a->row ? i * outer + j * in : j * outer + i * in; };
    auto sidx = [&](long i, long j) { return a->row ? i * SH_cols + j : j * SH_rows + i; };
    bool fits = row >= 0 && col >= 0 && r >= 0 && c >= 0 && (long)row + r <= SH_rows && (long)col + c <= SH_cols;
    bool strict = fits && row < SH_rows && col < SH_cols;
    rw_safe = e.safe; rw_alive = alive; in_rw = true;
    bool free_lock = sem_holder(7) == 0;
    std::string lab = op + "(" + std::to_string(r) + "x" + std::to_string(c) + " at " + std::to_string(row) + "," + std::to_string(col) + ")";
    bool ret = call(e, lab, [&]() -> long { return (e.server ? a->srw : a->crw)[op](e.mem, b, r, c, outer, in, row, col); });
    in_rw = false; curop = op;
    if (crashed) { crash_check(e, op); return; }
    if (blocked) return;
    after(e, op);
    if (n_try > 1) bad("C04", "more than one attempt at the lock");
    if (n_post + n_postfail > 1) bad("C04", "more than one release of the lock");
    if (!e.safe && (n_try || n_post || n_block || n_timed)) bad("C04", "an unsafe call touches the lock");
    if (!alive && (n_try || n_post || ret)) bad("C04", "a call on an endpoint that is not running / attached succeeds or touches the lock");
    if (e.safe && n_tryfail && ret && !threw) { bad("C03", "the call succeeds without the lock"); bad("C06", "a failed acquisition is reported as success"); }
    if (e.safe && ret && n_acq != 1) bad("C03", "the call succeeds without acquiring the lock");
    if (threw && !n_postfail) { bad("C02", "a read or write throws"); bad("C06", "a read or write throws although no release failed"); }
    if (n_acq != n_post + n_postfail) bad("C03", "the lock is not given back exactly as often as it was acquired");
    if (alive && !threw && strict && (!e.safe || free_lock) && n_faults == 0 && !ret) { bad("C02", "a request inside the tensor is refused"); bad("C06", "a transfer that fits fails although the lock is free"); }
    if (!fits && ret) bad("C02", "a request outside the tensor is accepted");
    // contents
    Shm* d = nullptr; for (Shm* s : allshm) if (s->name == path[0] && s->base && s->size == shadow.size()) d = s;
    if (!alive && ret) return;
    if (wr && ret && fits) for (long i = 0; i < rr; i++) for (long j = 0; j < cc; j++) memcpy(&shadow[sidx(row + i, col + j) * a->esz], &before[uidx(i, j) * a->esz], a->esz);
    if (!wr && ret && fits) for (long i = 0; i < rr; i++) for (long j = 0; j < cc; j++) memcpy(&before[uidx(i, j) * a->esz], &sh0[sidx(row + i, col + j) * a->esz], a->esz);
    if (d && alive && memcmp(d->base, shadow.data(), shadow.size())) { bad(ret ? "C01" : "C02", ret ? lab + ": the shared tensor is not what it must be" : lab + ": a refused call changes the shared tensor"); if (!ret && e.safe && n_acq == 0) bad("C03", "shared data changed without the lock"); shadow.assign(d->base, d->base + d->size); }
    if (memcmp(b, before.data(), before.size())) { bad(ret ? "C01" : "C02", ret ? lab + ": the caller's tensor is not what it must be" : lab + ": a refused call changes the caller's tensor"); if (!ret && n_tryfail) bad("C03", "the destination is changed without the lock"); }
    syscall(SYS_munmap, ar, ((n * a->esz + 4095) / 4096 + 2) * 4096);
}
static void env_take() { auto i = sems.find(path[7]); if (i != sems.end() && i->second->value > 0) { i->second->value--; i->second->holder = ENV; trace += "; another process takes the data lock"; } }
static void env_give() { auto i = sems.find(path[7]); if (i != sems.end() && i->second->value == 0 && i->second->holder == ENV) { i->second->value++; i->second->holder = 0; trace += "; it gives the data lock back"; } }

static void reset_all() {
    inside = false; on_event = nullptr; on_sleep = nullptr;
    for (End* e : {&E1, &E2, &K1, &K2, &K3}) { if (e->mem) free(e->mem); *e = End(); }
    E1.id = 1; E2.id = 2; K1.id = 11; K2.id = 12; K3.id = 13;
    for (Shm* s : allshm) { if (s->area) syscall(SYS_munmap, s->area - 4096, s->alen + 8192); delete s; }
    allshm.clear(); shms.clear(); for (auto& s : sems) delete s.second; sems.clear();
    for (auto* h : handles) delete h; handles.clear(); fds.clear();
    trace.clear(); opindex = 0; shadow.clear(); SH_api = nullptr; SH_rows = SH_cols = 0; forcing.clear(); in_rw = false;
    on_event = invariants; crashed = blocked = lost = foreign_unlink = false; allsem.clear();
}
static bool over() { return crashed || blocked || lost; }

// ------------------------------------------------------------------------------------------------ histories
typedef std::function<void()> Act;
struct Cfg { Api* a; bool safe, force; };
static std::map<std::string, Act> acts;
static bool allow_stale = false;
static Cfg cfg;
static void step(const std::string& s) {
    if (over()) return;
    if (s == "E+") return env_take();
    if (s == "E-") return env_give();
    char w = s[0]; std::string op = s.substr(1);
    End* e = w == 's' ? &E1 : w == 't' ? &E2 : w == 'c' ? &K1 : w == 'd' ? &K2 : &K3;
    if (op == "ctor") {
        if (w == 's') { if (!E1.mem) ctor_server(E1, cfg.a, 3, 2, cfg.force, cfg.safe); }
        else if (w == 't') { if (!E2.mem) ctor_server(E2, cfg.a, 2, 2, false, cfg.safe); }
        else if (w == 'u') { if (!E2.mem) ctor_server(E2, &apis[(cfg.a - &apis[0] + 4) % 8], 2, 4, false, cfg.safe); }
        else if (!e->mem) ctor_client(*e, w == 'm' ? &apis[(cfg.a - &apis[0] + 2) % 8] : w == 'l' ? &apis[(cfg.a - &apis[0]) ^ 1] : cfg.a, cfg.safe);
        return;
    }
    if (e->server && !allow_stale && (op == "run" || op == "close" || op == "dtor") && e->constructed && !e->run && !e->init) {
        // known findings (known_findings.txt): a stopped server over whose objects another server was constructed
        End* o = e == &E1 ? &E2 : &E1;
        if (o->mem && o->constructed && !o->closed && !e->closed) return;
    }
    if (op == "rel" && !e->user) for (Handle* h : handles) if (h->open && h->owner == e->id && h->o->name == path[7]) return;        // precondition of a manual unlock
    if (op == "rel" && !e->user && e->server && e->init) return;
    if (op == "acq" && (e->user || e->init)) return;
    if (op == "W") return op_rw(*e, "writeref", 2, 1, 1, 1, 0, 1);
    if (op == "R") return op_rw(*e, "readref", 1, 2, 2, 0, 1, 1);
    if (op == "V") return op_rw(*e, "writeview", 2, 2, 1, 0, 1, 2);
    if (op == "U") return op_rw(*e, "readview", 2, 2, 0, 0, 0, 2);
    if (op == "X") return op_rw(*e, "writeref", 2, 2, 2, 1, 0, 1);
    if (op == "Y") return op_rw(*e, "readview", 3, 3, 0, 0, 0, 1);
    if (e->server) op_server(*e, op); else op_client(*e, op);
}
static double t_end; static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static long nrun = 0;
static bool stopnow() { return !viol.empty() || now() > t_end; }
static void play(const std::vector<std::string>& h, const Fault& f) {
    reset_all(); fault = f; nrun++;
    for (auto& s : h) { step(s); if (over() || !viol.empty()) break; }
    // end of life
    if (!over() && viol.empty()) for (const char* s : {"cdtor", "ddtor", "mdtor", "sdtor", "tdtor"}) { step(s); if (over() || !viol.empty()) break; }
    reset_all(); fault = Fault{-1, -1, 0, false};
}
static int calls_of(const std::vector<std::string>& h, int op) {      // environment calls the op makes without faults
    reset_all(); fault = Fault{-1, -1, 0, false}; int n = 0;
    for (auto& s : h) { step(s); if (over()) break; if (opindex == op) n = ncall; }
    reset_all(); return n;
}
static void faults(const std::vector<std::string>& h) {
    // one failing call anywhere, and everything failing from one call on
    reset_all(); fault = Fault{-1, -1, 0, false}; std::vector<std::pair<int, int>> pts;
    for (auto& s : h) { int o = opindex; step(s); if (over()) break; if (opindex == o + 1) for (int k = 1; k <= ncall; k++) pts.push_back({opindex, k}); }
    reset_all();
    for (auto& p : pts) for (int err : {EINTR, EACCES}) for (bool st : {false, true}) { play(h, Fault{p.first, p.second, err, st}); if (stopnow()) return; }
}
static void sequences(const std::vector<std::string>& pre, const std::vector<std::string>& ab, int len, int flen) {
    std::vector<int> ix;
    std::function<void(int)> go = [&](int d) {
        std::vector<std::string> h = pre; for (int i : ix) h.push_back(ab[i]);
        play(h, Fault{-1, -1, 0, false}); if (stopnow()) return;
        if ((int)ix.size() <= flen) { faults(h); if (stopnow()) return; }
        if (d == 0) return;
        for (int i = 0; i < (int)ab.size(); i++) { ix.push_back(i); go(d - 1); ix.pop_back(); if (stopnow()) return; }
    };
    for (int l = len; l >= 0; l = -1) go(l);
}
static void geometry(Api* a, bool client) {
    for (int M : {1, 3}) for (int N : {1, 2, 4}) for (int safe = 0; safe < 2; safe++) {
        reset_all(); cfg = {a, (bool)safe, false};
        ctor_server(E1, a, M, N, false, safe); if (over()) return; op_server(E1, "run"); if (over()) return;
        End* e = &E1;
        if (client) { ctor_client(K1, a, safe); op_client(K1, "attach"); if (over()) return; e = &K1; }
        std::string pre = trace;
        // sizes that do not fit in an int
        const long big[][2] = {{1L << 32, 0}, {(1L << 32) + 1, 0}, {0, 1L << 32}, {0, (1L << 32) + 1}, {1L << 31, 0}, {0, 1L << 31}, {(1L << 32) + 1, 1}, {1, (1L << 32) + 1}, {0x7fffffff, 1}, {1, 0x7fffffff}};
        for (auto& b : big) for (int row : {0, 1}) for (int col : {0, 1}) for (const char* op : {"writeref", "readref", "writeview", "readview"}) {
            trace = pre; nrun++;
            op_rw(*e, op, b[0], b[1], row, col, 0, 1);
            if (!viol.empty() || over()) { reset_all(); return; }
        }
        for (int r : {-1, 0, 1, 2, 3, 4}) for (int c : {-1, 0, 1, 2, 4, 5}) for (int row : {-1, 0, 1, 2, 3, 0x7fffffff, (int)0x80000000}) for (int col : {-1, 0, 1, 3, 4, 0x7fffffff, (int)0x80000000})
            for (const char* op : {"writeref", "readref", "writeview", "readview"}) {
                                trace = pre; nrun++;
                op_rw(*e, op, r, c, row, col, (r + c) % 2 ? 1 : 0, 1 + (row & 1));
                if (!viol.empty() || over()) { reset_all(); if (stopnow()) return; return; }
            }
        reset_all(); if (stopnow()) return;
    }
}
static void names() {
    std::string longn(100, 'n'), bin; for (int i = 1; i < 256; i++) if (i != '/') bin += (char)i;
    const std::vector<std::string> strs = {"", "a", "b", "ab", "_", "A_", "x y", ".", "..", longn, bin, bin.substr(100, 40), "sharedTensorNRows", "_dataSem", "_srvrSem", "name%s%d", "clientsCount", "verylongname_with_underscores_0123456789"};
    for (auto& n1 : strs) for (auto& b1 : strs) {
        if (b1.empty() || stopnow()) continue;
        ns = n1; base = b1; paths();
        for (size_t k = 0; k < apis.size(); k++) {
            reset_all(); nrun++; used.clear(); on_event = nullptr;
            trace = "namespace \"" + ns + "\", name \"" + base + "\": ";
            for (int i = 0; i < 9; i++) {
                if (path[i].find(ns) == std::string::npos || path[i].find(base) == std::string::npos) { bad("C13", "object name " + path[i] + " does not contain namespace and name"); return; }
                for (int j = 0; j < i; j++) if (path[i] == path[j]) { bad("C13", "two items have the name " + path[i]); return; } }
            ctor_server(E1, &apis[k], 3, 2, false, true); if (over()) continue; op_server(E1, "run"); if (over()) continue;
            ctor_client(K1, &apis[k], true); op_client(K1, "attach");
            std::set<std::string> all; for (int i = 0; i < 9; i++) all.insert((i < 7 ? "m" : "s") + path[i]);
            std::set<std::string> srv, clt = used[11]; for (auto& u : used) if (u.first < 10) srv.insert(u.second.begin(), u.second.end());
            for (auto& x : srv) if (!all.count(x)) { bad("C13", "the server uses the name " + x.substr(1) + ", which is not of the naming scheme"); return; }
            for (auto& x : clt) if (!all.count(x)) { bad("C13", "the client uses the name " + x.substr(1) + ", which is not of the naming scheme"); return; }
            for (auto& x : clt) if (x != "s" + path[8] && !srv.count(x)) { bad("C13", "the client uses the name " + x.substr(1) + ", which the server does not use"); return; }
            for (int i = 0; i < 8; i++) if (!srv.count((i < 7 ? "m" : "s") + path[i])) { bad("C13", "the server does not use the name " + path[i]); return; }
            if (over()) { if (!lost) { bad("C13", "the client does not find the server"); return; } continue; }
            if (!K1.att) { bad("C13", "the client could not attach"); return; }
            int r, c; memcpy(&r, shms[path[1]]->base, 4); memcpy(&c, shms[path[2]]->base, 4);
            if (r != 3 || c != 2) { bad("C13", "row and column count are not in the memory named so"); return; }
            if (shm_value(6, 0) != 1) { bad("C13", "the running flag is not in the memory named so"); return; }
            if (shm_value(5, -1) != 1) { bad("C13", "the client counter is not in the memory named so"); return; }
            if (call(E1, "getNClients()", [&]() -> long { return apis[k].s["nclients"](E1.mem); }) != 1) { bad("C13", "the server does not find the client counter"); return; }
        }
    }
    reset_all();
}
int main(int argc, char** argv) {
    prop = argc > 1 ? argv[1] : "C01"; t_end = now() + (argc > 2 ? atof(argv[2]) : 30); int level = argc > 3 ? atoi(argv[3]) : 0;
    apis = {api_dR(), api_dC(), api_fR(), api_fC(), api_iR(), api_iC(), api_bR(), api_bC()};
    FILE* out = fdopen(dup(1), "w"); std::ofstream nul("/dev/null"); std::cout.rdbuf(nul.rdbuf()); std::cerr.rdbuf(nul.rdbuf());
    if (!freopen("/dev/null", "w", stdout)) return 2;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
    std::set_terminate([]() { if (inside) { inside = false; crashed = true; siglongjmp(segv_escape, 1); } abort(); });
    paths();
    if (prop.size() > 3) { // scenario of a known finding
        reset_all(); allow_stale = true; cfg = {&apis[0], true, false}; std::string sc = prop; prop = prop.substr(0, 3);
        if (sc == "C08:close-under") { for (const char* o : {"sctor", "srun", "sstop", "tctor", "trun", "sclose"}) step(o);
            bool before = E2.run; E1.mem = nullptr; E1.id = 1; step("sctor"); if (E1.constructed) step("srun");
            viol.clear(); if (before && E1.run && E2.run) viol.push_back("C08: two servers of one name run at the same time | history: " + trace); }
        if (sc == "C07:rerun-over") { for (const char* o : {"sctor", "srun", "sstop", "tctor", "srun"}) step(o); }
        for (auto& v : viol) fprintf(out, "VIOL %s\n", v.c_str());
        fflush(out); _exit(0);
    }
    if (prop == "C13") { names(); for (auto& v : viol) fprintf(out, "VIOL %s\n", v.c_str()); fprintf(out, "RUNS %ld\n", nrun); fflush(out); _exit(viol.empty() ? 0 : 1); }
    bool data = prop == "C01" || prop == "C02";
    std::vector<std::string> sv = {"srun", "sstop", "sclose", "snclients", "sacq", "srel", "sW", "sU", "sX", "E+", "E-"};
    std::vector<std::string> cl = {"cattach", "cdetach", "cclose", "cacq", "crel", "cW", "cU", "cY", "dattach", "ddetach", "snclients", "sstop", "srun", "E+", "E-"};
    std::vector<std::string> two = {"tctor", "trun", "srun", "sstop", "sclose", "tstop", "tclose", "sW", "tW", "sR"};
    std::vector<std::string> mm = {"mctor", "mattach", "lctor", "lattach", "cattach", "srun", "snclients", "mdetach"};
    for (int round = 0; round < 3 && !stopnow(); round++) {
        if (data || round) for (auto& a : apis) { geometry(&a, false); if (stopnow()) break; geometry(&a, true); if (stopnow()) break; }
        int L = 2 + round + level;
        for (int k : {0, 7, 3, 4}) { for (int m = 0; m < 4 && !stopnow(); m++) {
            cfg = {&apis[k], !(m & 1), (m & 2) != 0};
            if (m < 2) for (const char* leave : {"cdetach", "cclose"}) for (const char* other : {"tctor", "uctor"}) { // the server is replaced by one of another shape or type
                sequences({"sctor", "srun", "cctor", "cattach", leave, "sclose", other, "trun"}, {"cattach", "cdetach", "cclose", "cW", "cU"}, 2, 1); if (stopnow()) break; }
            if (stopnow()) break;
            if (m == 0 || m == 3) sequences({"sctor"}, sv, L, round);
            if (stopnow()) break;
            if (cfg.force) sequences({"sctor", "srun", "E+", "sctor"}, {"srun", "tctor", "sW"}, 1, 0);
            if (stopnow()) break;
            if (m < 2) sequences({"sctor", "srun", "cctor", "dctor"}, cl, L, round);
            if (stopnow()) break;
            if (m == 0) { sequences({"sctor"}, two, L, round ? 1 : 0); if (stopnow()) break; sequences({"sctor", "srun", "cctor"}, mm, 2, 0); }
            if (m == 0 && !stopnow()) sequences({"E+", "sctor", "srun", "cctor", "cattach", "E+"}, {"cW", "cU", "sW", "sR", "E-", "cdetach"}, L, round);
          } if (stopnow()) break; }
    }
    // a lock left behind by a crashed process, with and without forced reconnection
    for (int k : {0, 7}) for (int f = 0; f < 2 && viol.empty(); f++) for (int which : {7, 8}) {
        reset_all(); cfg = {&apis[k], true, f != 0};
        sems[path[which]] = new SemObj{path[which], 0, ENV, 0}; trace = which == 7 ? "a crashed process left the data lock taken" : "a crashed process left the server lock taken";
        ctor_server(E1, cfg.a, 3, 2, cfg.force, true);
        if (!over() && E1.constructed) { op_server(E1, "run"); if (!over() && E1.run) op_rw(E1, "writeref", 2, 2, 0, 0, 0, 1); }
        if (!f && E1.constructed) bad("C06", "the lock was not granted but construction succeeded");
        reset_all(); nrun++;
    }
    for (auto& v : viol) fprintf(out, "VIOL %s\n", v.c_str());
    fprintf(out, "RUNS %ld\n", nrun); fflush(out);
    _exit(viol.empty() ? 0 : 1);
}
