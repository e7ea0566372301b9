// Bounded execution of ConditionVariable, Producer and Consumer (the real sources) against their specification: random histories with
// scripted interleavings of the other processes.  Named objects and counters live in this process and record every use.
#define BOOST_INTERPROCESS_NAMED_CONDITION_HPP
#define BOOST_INTERPROCESS_NAMED_MUTEX_HPP
#define SERVER_HPP
#define CLIENT_HPP
#include <boost/interprocess/creation_tags.hpp>
#include <boost/interprocess/exceptions.hpp>
#include <boost/interprocess/permissions.hpp>
#include <boost/interprocess/sync/scoped_lock.hpp>
#include <boost/interprocess/sync/lock_options.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <map>
#include <set>
#include <random>
#include <vector>
#include <string>
#include <functional>
#include <Eigen/Dense>
typedef std::string S;
static long runs = 0; static int viol = 0; static S prop, where; static std::vector<S> hist;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void bad(const S& w) { if (!viol++) { printf("VIOL %s %s [", prop.c_str(), w.c_str()); size_t n = hist.size(); for (size_t i = n > 25 ? n - 25 : 0; i < n; i++) printf("%s; ", hist[i].c_str()); printf("]\n"); } }
struct WouldBlock {}; struct Deadlock {};
// ---- the environment
struct Mx { bool held = false; int locks = 0, unlocks = 0; };
static std::map<S, Mx> MX; static std::set<S> CVS;
static std::map<S, int> CNT;                          // shared counters
static std::vector<std::function<bool()>> script;     // what happens while the caller waits: returns false if the (timed) wait expires
static std::function<void(const S&)> on_lock, on_unlock; static std::function<void(const S&, const S&, bool, bool)> on_wait; static std::function<void(const S&, bool)> on_notify;
static std::function<void(const S&, int, int)> on_write;
static std::vector<S> ev;                             // creations and removals
static int failmake = 0; static bool failrm = false; static boost::posix_time::ptime last_deadline; static bool last_timed, last_expired;
namespace boost { namespace interprocess {
class named_mutex { public: S n; named_mutex(const named_mutex&) = delete;
    void mk(const char* x, int mode) { n = x; ev.push_back((mode == 0 ? "create mutex " : mode == 1 ? "open mutex " : "open_or_create mutex ") + n); if (failmake == 2) throw interprocess_exception("mutex"); MX[n]; }
    named_mutex(create_only_t, const char* x, const permissions& = permissions()) { mk(x, 0); }
    named_mutex(open_only_t, const char* x) { mk(x, 1); }
    named_mutex(open_or_create_t, const char* x, const permissions& = permissions()) { mk(x, 2); }
    void lock() { Mx& m = MX[n]; if (m.held) throw Deadlock(); if (::on_lock) ::on_lock(n); m.held = true; m.locks++; }
    bool try_lock() { if (MX[n].held) return false; lock(); return true; }
    void unlock() { Mx& m = MX[n]; if (!m.held) bad("mutex " + n + " is unlocked without being held"); if (on_unlock) on_unlock(n); m.held = false; m.unlocks++; }
    static bool remove(const char* x) { ev.push_back(S("remove mutex ") + x); return !failrm; }
};
class named_condition { public: S n; named_condition(const named_condition&) = delete;
    void mk(const char* x, int mode) { n = x; ev.push_back((mode == 0 ? "create condition " : mode == 1 ? "open condition " : "open_or_create condition ") + n); if (failmake == 1) throw interprocess_exception("condition"); CVS.insert(n); }
    named_condition(create_only_t, const char* x, const permissions& = permissions()) { mk(x, 0); }
    named_condition(open_only_t, const char* x) { mk(x, 1); }
    named_condition(open_or_create_t, const char* x, const permissions& = permissions()) { mk(x, 2); }
    template <class L> bool go(L& l, bool timed) {
        if (!l.owns() || !l.mutex()) { bad("waits with a lock that is not held"); throw WouldBlock(); }
        const S m = l.mutex()->n;
        if (on_wait) on_wait(n, m, timed, MX[m].held);
        MX[m].held = false; last_timed = timed; last_expired = false;
        bool r = true;
        if (script.empty()) { if (!timed) { MX[m].held = true; throw WouldBlock(); } r = false; }
        else { auto f = script.front(); script.erase(script.begin()); r = f(); if (!timed) r = true; }
        last_expired = !r; MX[m].held = true;
        return r; }
    template <class L> void wait(L& l) { go(l, false); }
    template <class L, class P> void wait(L& l, P p) { while (!p()) go(l, false); }
    template <class L, class T> bool timed_wait(L& l, const T& t) { last_deadline = t; return go(l, true); }
    template <class L, class T, class P> bool timed_wait(L& l, const T& t, P p) { last_deadline = t; while (!p()) if (!go(l, true)) return p(); return true; }
    void notify_one() { if (on_notify) on_notify(n, false); }
    void notify_all() { if (on_notify) on_notify(n, true); }
    static bool remove(const char* x) { ev.push_back(S("remove condition ") + x); return !failrm; }
};
} }
#include <EigenIPC/SharedMemConfig.hpp>
#include <EigenIPC/Journal.hpp>
#include <EigenIPC/DTypes.hpp>
#include <EigenIPC/ReturnCodes.hpp>
namespace EigenIPC {
// counters: readable and writable while running
template <class T, int L> struct Cell { S k; bool run = false;
    template <class D> bool wr(const D& d) { if (!run) return false; int o = CNT[k]; CNT[k] = d(0, 0); if (on_write) on_write(k, o, CNT[k]); return true; }
    template <class D> bool rd(D& d) { if (!run) return false; d(0, 0) = CNT[k]; return true; }
    bool write(const TRef<T, L> d, int = 0, int = 0) { return wr(d); }
    bool write(const TensorView<T, L>& d, int = 0, int = 0) { return wr(d); }
    bool write(const Tensor<T, L>& d, int = 0, int = 0) { return wr(d); }
    bool read(TRef<T, L> d, int = 0, int = 0) { return rd(d); }
    bool read(TensorView<T, L>& d, int = 0, int = 0) { return rd(d); }
    bool read(Tensor<T, L>& d, int = 0, int = 0) { return rd(d); } };
template <class T, int L = MemLayoutDefault> struct Server : Cell<T, L> { using VLevel = Journal::VLevel;
    Server(int, int, S b = "", S n = "", bool = false, VLevel = VLevel::V0, bool = false, bool = true) { this->k = n + "|" + b; }
    void run() { if (!this->run_) { this->run_ = true; Cell<T, L>::run = true; } } bool run_ = false; void close() { Cell<T, L>::run = false; } void stop() { close(); } bool isRunning() { return Cell<T, L>::run; } int getNRows() { return 1; } int getNCols() { return 1; } };
template <class T, int L = MemLayoutDefault> struct Client : Cell<T, L> { using VLevel = Journal::VLevel;
    Client(S b = "", S n = "", bool = false, VLevel = VLevel::V0, bool = true) { this->k = n + "|" + b; }
    void attach() { this->run = true; } void close() { this->run = false; } void detach() { close(); } bool isRunning() { return this->run; } bool isAttached() { return this->run; } int getNRows() { return 1; } int getNCols() { return 1; } };
}
#include <../src/CondVar.cpp>
#include <../src/Producer.cpp>
#include <../src/Consumer.cpp>
using namespace EigenIPC;
typedef Journal::VLevel VL;
static std::mt19937 rng(1);
static int R(int n) { return rng() % n; }
static bool anyheld() { for (auto& m : MX) if (m.second.held) return true; return false; }
static void renew() { MX.clear(); CVS.clear(); CNT.clear(); script.clear(); ev.clear(); hist.clear(); on_lock = nullptr; on_unlock = nullptr; on_wait = nullptr; on_notify = nullptr; on_write = nullptr; failmake = 0; failrm = false; }

struct Roles { S T, A, tm, am, tc, ac; };
// what the producer uses, found by running it
static Roles learn() {
    renew(); Roles r; Producer p("base", "ns", false, VL::V0, false); try { p.run(); } catch (...) { if (prop == "C16") bad("run() of a new producer throws"); return r; }
    std::vector<S> w; on_write = [&](const S& k, int, int) { w.push_back(k); }; std::vector<S> l; on_lock = [&](const S& m) { l.push_back(m); }; std::vector<S> nn; on_notify = [&](const S& n, bool) { nn.push_back(n); }; 
    try { p.trigger(); } catch (...) {}
    if (w.size() >= 1) r.T = w[0]; if (l.size() >= 1) r.tm = l[0]; if (nn.size()) r.tc = nn[0];
    for (auto& c : CNT) if (c.first != r.T) r.A = c.first;
    on_wait = [&](const S& c, const S& m, bool, bool) { r.ac = c; r.am = m; };
    try { p.wait_ack_from(1, 1); } catch (...) {} 
    return r; }
static const int STARTS[] = {0, 0, 0, 1, 5, 2147483647, -2147483647 - 1, -1};
static unsigned U(int x) { return (unsigned)x; }

static void producer(int level) {
    Roles r = learn(); renew(); runs++;
    if (r.T.empty() || r.tm.empty() || r.am.empty()) { bad("a trigger does not write a count, lock a mutex or a wait does not wait"); return; }
    if (r.tm == r.am || r.tc == r.ac) bad("trigger and acknowledgement share a mutex or condition");
    Producer p("base", "ns", false, VL::V0, false);
    bool running = false, closed = false; unsigned before = 0;
    if (R(8) == 0) { hist.push_back("trigger() before run()"); try { p.trigger(); bad("trigger() returns although not running"); } catch (std::exception&) {} }
    if (R(3) == 0) { CNT["ns|baseTrigger"] = 77; CNT["ns|baseAck"] = 55; }
    try { p.run(); running = true; } catch (...) { bad("run() of a new producer throws"); return; }
    hist.push_back("run()");
    for (auto& c : CNT) if (c.second) { bad("count " + c.first + " does not start at zero"); return; }
    int n_ops = 1 + R(8);
    for (int i = 0; i < n_ops && !viol; i++) {
        if (anyheld()) { bad("a mutex stays locked"); return; }
        int op = R(10);
        if (op < 4) {
            unsigned T0 = CNT[r.T]; bool wrote = false, notified = false, wheld = true; int nw = 0;
            on_write = [&](const S& k, int o, int v) { if (k != r.T) bad("trigger() changes count " + k); nw++; wrote = true; wheld = wheld && MX[r.tm].held; };
            on_notify = [&](const S& c, bool all) { if (c != r.tc) bad("trigger() notifies " + c); if (!all) bad("trigger() does not notify all waiters"); if (!MX[r.tm].held) bad("trigger() notifies without holding the mutex"); if (U(CNT[r.T]) != T0 + 1) bad("waiters are notified before the count is increased"); notified = true; };
            hist.push_back("trigger()"); bool thr = false;
            try { p.trigger(); } catch (Deadlock&) { bad("trigger() locks a mutex it holds"); return; } catch (WouldBlock&) { bad("trigger() waits"); return; } catch (std::exception&) { thr = true; }
            on_write = nullptr; on_notify = nullptr;
            if (thr) { if (!closed) bad("trigger() throws although running"); }
            else { if (closed) bad("trigger() returns although the counts are closed"); if (U(CNT[r.T]) != T0 + 1) bad("trigger() changes the count from " + std::to_string((int)T0) + " to " + std::to_string(CNT[r.T])); if (!notified) bad("trigger() does not notify"); if (!wheld) bad("the count is changed without holding the mutex"); }
        } else if (op < 9) {
            int n = R(5) == 0 ? (int)rng() : R(4), ms = R(3) == 0 ? -R(2) : 1 + R(1000);
            int k = R(5); hist.push_back("wait_ack_from(" + std::to_string(n) + "," + std::to_string(ms) + ") A=" + std::to_string(CNT[r.A]));
            auto act = [&](const char* when) { int q = R(4); if (q == 0) CNT[r.A] = U(CNT[r.A]) + 1; else if (q == 1) CNT[r.A] = U(before) + U(n); else if (q == 2) CNT[r.A] = U(CNT[r.A]) + R(3); hist.push_back(S(when) + ": A=" + std::to_string(CNT[r.A])); };
            for (int j = 0; j < k; j++) script.push_back([&, ms] { act("while waiting"); bool ex = R(4) == 0 && ms > 0; if (ex) hist.push_back("expired"); return !ex; });
            bool expired = false; unsigned atun = CNT[r.A];
            on_lock = [&](const S& m) { if (R(3) == 0) act("before locking"); };
            on_unlock = [&](const S& m) { if (m == r.am) atun = CNT[r.A]; };
            on_wait = [&](const S& c, const S& m, bool timed, bool) { if (c != r.ac || m != r.am) bad("waits on another condition or mutex"); if (U(CNT[r.A]) - before == U(n)) bad("waits although exactly " + std::to_string(n) + " acknowledgements were counted"); if (timed != (ms > 0)) bad("timed and untimed waits are confused"); };
            on_write = [&](const S& k, int, int) { bad("waiting changes count " + k); };
            bool ret = false, thr = false, blk = false; last_expired = false;
            try { ret = p.wait_ack_from(n, ms); } catch (Deadlock&) { bad("a mutex is locked twice"); return; } catch (WouldBlock&) { blk = true; } catch (std::exception&) { thr = true; }
            script.clear(); on_lock = nullptr; on_unlock = nullptr; on_wait = nullptr; on_write = nullptr;
            if (blk) continue;
            if (thr) { if (!closed) bad("wait_ack_from() throws although running"); }
            else if (ret) { if (atun - before != U(n)) bad("true although " + std::to_string((int)(atun - before)) + " acknowledgements were counted since the last successful wait"); before = atun; if (closed) bad("wait_ack_from() succeeds although closed"); }
            else if (!last_expired) bad("false although no timed wait expired");
        } else if (R(4) == 0) { hist.push_back("close()"); p.close(); closed = true; }
        else { hist.push_back("run()"); try { p.run(); } catch (...) { return; } }
    }
}
static void consumer(int level) {
    Roles r = learn(); renew(); runs++;
    if (r.T.empty() || r.tm.empty() || r.am.empty()) return;
    CNT[r.T] = 0; CNT[r.A] = STARTS[R(8)];
    Consumer c("base", "ns", false, VL::V0);
    bool closed = false; unsigned consumed = 0;
    try { c.run(); } catch (std::exception&) { bad("run() of a new consumer throws"); return; }
    hist.push_back("run()");
    int n_ops = 1 + R(8); bool lost = false;
    for (int i = 0; i < n_ops && !viol && !lost; i++) {
        if (anyheld()) { bad("a mutex stays locked"); return; }
        int op = R(12);
        if (op < 9) {
            bool wait = op < 3 || op >= 6, ack = op >= 3;
            int ms = R(3) == 0 ? -R(2) : 1 + R(1000), k = R(5); bool cbret = R(3) > 0, cbthr = R(8) == 0; int ncb = 0;
            hist.push_back(S(wait ? ack ? "wait_and_ack" : "wait" : "ack") + "(" + std::to_string(ms) + ") T=" + std::to_string(CNT[r.T]) + " A=" + std::to_string(CNT[r.A]) + (wait && ack ? cbthr ? " pre_ack throws" : cbret ? " pre_ack true" : " pre_ack false" : ""));
            auto act = [&](const char* when) { int q = R(9); if (q < 3) CNT[r.T] = U(consumed) + 1; else if (q == 3 && R(3) == 0) CNT[r.T] = U(consumed) + 2; else if (q == 4 && R(3) == 0) CNT[r.T] = STARTS[R(8)]; else if (q < 7) CNT[r.A] = U(CNT[r.A]) + R(3); hist.push_back(S(when) + ": T=" + std::to_string(CNT[r.T]) + " A=" + std::to_string(CNT[r.A])); };
            for (int j = 0; j < k; j++) script.push_back([&, ms] { act("while waiting"); bool ex = R(4) == 0 && ms > 0; if (ex) hist.push_back("expired"); return !ex; });
            unsigned Tun = CNT[r.T], A0 = 0, A1 = 0; int wr = 0; bool waited_ok = false, notif = false; int seen_exp = 0;
            on_lock = [&](const S& m) { if (R(3) == 0) act("before locking"); if (m == r.am) A0 = CNT[r.A]; };
            on_unlock = [&](const S& m) { if (m == r.tm) Tun = CNT[r.T]; if (m == r.am) A1 = CNT[r.A]; };
            on_wait = [&](const S& cv, const S& m, bool timed, bool) { if (cv != r.tc || m != r.tm) bad("waits on another condition or mutex"); if (U(CNT[r.T]) - consumed == 1) bad("waits although a trigger is there"); else if (CNT[r.T] != (int)consumed) bad("waits although the count moved by " + std::to_string((int)(U(CNT[r.T]) - consumed))); if (timed != (ms > 0)) bad("timed and untimed waits are confused"); };
            on_write = [&](const S& q, int, int) { if (q != r.A) bad("changes count " + q); wr++; if (!MX[r.am].held) bad("acknowledges without holding the mutex"); };
            on_notify = [&](const S& cv, bool) { if (cv != r.ac) bad("notifies another condition"); if (!MX[r.am].held) bad("notifies without holding the mutex"); if (!closed && !wr) bad("notifies before the acknowledgement is counted"); notif = true; };
            std::function<bool()> cb = [&] { ncb++; if (anyheld()) bad("pre_ack runs while a mutex is held"); if (cbthr) throw std::runtime_error("pre_ack"); return cbret; };
            bool ret = false, thr = false, blk = false; last_expired = false;
            try { ret = wait ? ack ? c.wait_and_ack(cb, ms) : c.wait(ms) : c.ack(); } catch (Deadlock&) { bad("a mutex is locked twice"); return; } catch (WouldBlock&) { blk = true; } catch (std::exception&) { thr = true; }
            script.clear(); on_lock = nullptr; on_unlock = nullptr; on_wait = nullptr; on_write = nullptr; on_notify = nullptr;
            if (blk) continue;
            bool took = wait && (ack ? ncb > 0 : ret && !thr);
            if (took && Tun - consumed != 1) bad("a wait succeeds although the count moved by " + std::to_string((int)(Tun - consumed)));
            if (closed && (took || ret)) bad("an operation of a closed consumer succeeds");
            if (wait && !took && !thr && !last_expired) bad("a wait fails although no timed wait expired");
            if (thr && wait && !took && !closed && (Tun == consumed || Tun - consumed == 1)) bad("waiting throws although the count moved by " + std::to_string((int)(Tun - consumed)));
            if (thr && !wait && !closed) bad("ack() throws although running");
            if (took) consumed = Tun;
            if (!closed && ack) {
                bool must = !wait || took && !cbthr;
                if (must && (wr != 1 || A1 - A0 != 1)) bad("acknowledging changes the count by " + std::to_string((int)(A1 - A0)) + " in " + std::to_string(wr) + " writes");
                if (must && !notif) bad("an acknowledgement does not notify");
                if (!must && wr) bad("acknowledges although the wait failed");
                if (ncb > 1) bad("pre_ack is called " + std::to_string(ncb) + " times");
                if (!thr && ret != (!wait || took && cbret)) bad(S("returns ") + (ret ? "true" : "false"));
            }
            if (!closed && !ack && wr) bad("wait() changes a count");
            if (thr && wait && !took) lost = true;
        } else if (op == 9 && R(3) == 0) { hist.push_back("close()"); c.close(); closed = true; }
        else { hist.push_back("run()"); try { c.run(); } catch (...) { return; } }
    }
}
static void condvar(int level) {
    renew(); runs++;
    bool srv = R(2), force = R(2), verbose = R(2); failrm = R(3) == 0; failmake = R(4) == 0 ? 1 + R(2) : 0;
    hist.push_back(S(srv ? "owner" : "client") + (force ? " forced" : "") + (failrm ? ", removal fails" : "") + (failmake == 1 ? ", condition cannot be made" : failmake == 2 ? ", mutex cannot be made" : ""));
    S base = "b" + std::to_string(R(3)), ns = "n" + std::to_string(R(3));
    std::unique_ptr<ConditionVariable> c; bool thr = false;
    fflush(stdout); 
    try { c = std::make_unique<ConditionVariable>(srv, base, ns, verbose, (VL)R(4), force); } catch (std::exception&) { thr = true; }
    auto e = ev; ev.clear();
    std::vector<S> mk, rm; for (auto& x : e) { if (x.compare(0, 7, "remove ") == 0) { if (!mk.empty()) bad("a name is removed after an object was made"); rm.push_back(x.substr(7)); } else mk.push_back(x); }
    for (auto& x : mk) if (x.compare(0, srv ? 7 : 5, srv ? "create " : "open ")) bad(S("the ") + (srv ? "owner" : "client") + " does: " + x);
    if (!rm.empty() && !(srv && force)) bad("construction removes " + rm[0]);
    if (srv && force && rm.size() != 2) bad("forced reconnection removes " + std::to_string(rm.size()) + " names");
    if (thr != (failmake != 0)) { bad(thr ? "construction fails although both objects could be made" : "construction hides that an object could not be made"); return; }
    if (thr) return;
    S cn, mn; for (auto& x : mk) { size_t q = x.find(' '), q2 = x.find(' ', q + 1); (x.substr(q + 1, q2 - q - 1) == "mutex" ? mn : cn) = x.substr(q2 + 1); }
    if (mk.size() != 2 || cn == mn || cn.empty() || mn.empty()) { bad("the named objects are not one condition and one mutex of different names"); return; }
    for (auto& n : {cn, mn}) if (n.find(base) == S::npos || n.find(ns) == S::npos) bad("the name " + n + " does not contain the name and namespace");
    if (c->cond_var_path() != cn || c->mutex_path() != mn) bad("the reported names are not the names used");
    for (auto& x : rm) if (x != "mutex " + mn && x != "condition " + cn) bad("removes " + x);
    S nc, wc, wm; int nn = 0, nall = 0; on_notify = [&](const S& x, bool all) { nc = x; nn++; nall += all; };
    on_wait = [&](const S& x, const S& m, bool timed, bool) { wc = x; wm = m; };
    for (int i = R(4); i-- > 0 && !viol;) {
        int op = R(6); unsigned ms = R(3) == 0 ? rng() : 1 + R(5000);
        if (op < 4) {
            hist.push_back(op == 0 ? "wait" : op == 1 ? "wait_for" : op == 2 ? "timedwait " + std::to_string(ms) : "timedwait_for " + std::to_string(ms));
            try {
                auto l = c->lock(); if (!l.owns() || !l.mutex() || l.mutex()->n != mn || !MX[mn].held) { bad("lock() does not hold the mutex"); return; }
                int k = R(3); bool pr = false; wc.clear();
                for (int j = 0; j < k; j++) script.push_back([&] { if (R(2)) pr = true; return R(3) > 0; });
                std::function<bool()> f = [&] { return pr; };
                auto t0 = boost::posix_time::microsec_clock::universal_time();
                bool ret = true; last_expired = false; last_timed = false;
                if (op == 0) c->wait(l); else if (op == 1) c->wait_for(l, f); else ret = op == 2 ? c->timedwait(l, ms) : c->timedwait_for(l, ms, f);
                auto t1 = boost::posix_time::microsec_clock::universal_time();
                if (op != 1 && op != 3 && wc.empty()) bad("does not wait");
                if (!wc.empty() && (wc != cn || wm != mn)) bad("waits on another condition or mutex");
                if (op == 1 && !pr) bad("wait_for() ends although the predicate is false");
                if (op == 2 && ret == last_expired) bad(S("timedwait() returns ") + (ret ? "true" : "false"));
                if (op == 3 && ret && !pr) bad("timedwait_for() returns true although the predicate is false");
                if (op == 3 && !ret && !last_expired) bad("timedwait_for() returns false although no wait expired");
                if (op >= 2 && !wc.empty()) { auto d = boost::posix_time::millisec(ms); if (!last_timed || last_deadline < t0 + d || last_deadline > t1 + d) bad("the deadline is not " + std::to_string(ms) + " ms from now"); }
                if (!l.owns()) bad("the lock is not held after waiting");
                if (R(2)) { c->unlock(l); if (l.owns() || MX[mn].held) bad("unlock() does not release the mutex"); }
            } catch (WouldBlock&) {} catch (Deadlock&) { bad("a mutex is locked twice"); return; }
            script.clear();
        } else { nn = nall = 0; hist.push_back(op == 4 ? "notify_one" : "notify_all"); if (op == 4) c->notify_one(); else c->notify_all(); if (nn < 1 || nc != cn) bad("the condition is not notified"); if (op == 5 && !nall) bad("notify_all() does not notify all waiters"); }
        if (anyheld()) bad("a mutex stays locked");
        if (!ev.empty()) bad("an operation does: " + ev[0]);
    }
    int n = R(3); for (int i = 0; i < n; i++) { hist.push_back("close"); c->close(); }
    hist.push_back("destroy"); c.reset();
    std::multiset<S> got(ev.begin(), ev.end()), want; if (srv) want = {"remove mutex " + mn, "remove condition " + cn};
    if (got != want) bad("closing and destruction do: " + std::to_string(got.size()) + " removals" + (got.empty() ? "" : ", " + *got.begin()));
}
int main(int argc, char** argv) {
    setenv("TZ", "XXX5", 1); tzset();
    prop = argv[1]; double end = now() + atof(argv[2]); int level = atoi(argv[3]);
    FILE* out = fdopen(dup(1), "w"); 
    long N = level > 1 ? 3000000 : 300000;
    for (long i = 0; i < N && now() < end && !viol; i++) { rng.seed(i + 1); if (prop == "C16") producer(level); else if (prop == "C17") consumer(level); else condvar(level); }
    fprintf(out, "\nRUNS %ld\n", runs); fclose(out);
    return viol ? 1 : 0;
}
