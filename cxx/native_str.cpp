// Bounded execution of StringTensor (the real sources) against its specification: random histories over a shared tensor that lives in
// this process and records every transfer.  Compiled with AddressSanitizer; each batch runs in a process of its own.
#define SERVER_HPP
#define CLIENT_HPP
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <climits>
#include <map>
#include <memory>
#include <random>
#include <vector>
#include <string>
#include <stdexcept>
#include <Eigen/Dense>
#include <EigenIPC/SharedMemConfig.hpp>
#include <EigenIPC/Journal.hpp>
#include <EigenIPC/DTypes.hpp>
#include <EigenIPC/ReturnCodes.hpp>
typedef std::string S;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static S prop; struct Sh { long runs; char hist[6000]; }; static Sh* sh; static std::vector<S> hist;
static void note(const S& s) { hist.push_back(s); S o; size_t n = hist.size(); for (size_t i = n > 15 ? n - 15 : 0; i < n; i++) o += hist[i] + "; "; strncpy(sh->hist, o.c_str(), 5999); }
static void bad(const S& w) { printf("VIOL %s %s [%s]\n", prop.c_str(), w.c_str(), sh->hist); fflush(stdout); _exit(3); }
struct Mem { int rows, cols; std::vector<int> v; };
static std::map<S, Mem> MEM; static bool busy = false; static long ntrans = 0;
namespace EigenIPC {
template <class T, int L> struct Cell { S k; bool on = false;
    template <class D> bool ok(const D& d, int r, int c) { ntrans++; if (!on || !MEM.count(k)) return false; Mem& m = MEM[k]; return r >= 0 && c >= 0 && (long)r + d.rows() <= m.rows && (long)c + d.cols() <= m.cols && !busy; }
    template <class D> bool wr(const D& d, int r, int c) { if (!ok(d, r, c)) return false; Mem& m = MEM[k]; for (long j = 0; j < d.cols(); j++) for (long i = 0; i < d.rows(); i++) m.v[(r + i) * m.cols + c + j] = d(i, j); return true; }
    template <class D> bool rd(D& d, int r, int c) { if (!ok(d, r, c)) return false; Mem& m = MEM[k]; for (long j = 0; j < d.cols(); j++) for (long i = 0; i < d.rows(); i++) d(i, j) = m.v[(r + i) * m.cols + c + j]; return true; }
    bool write(const TRef<T, L> d, int r = 0, int c = 0) { return wr(d, r, c); }
    bool write(const TensorView<T, L>& d, int r = 0, int c = 0) { return wr(d, r, c); }
    bool read(TRef<T, L> d, int r = 0, int c = 0) { return rd(d, r, c); }
    bool read(TensorView<T, L>& d, int r = 0, int c = 0) { return rd(d, r, c); }
    int getNRows() { return MEM.count(k) ? MEM[k].rows : -1; } int getNCols() { return MEM.count(k) ? MEM[k].cols : -1; } int getNClients() { return 0; }
    S getNamespace() const { return ""; } S getBasename() const { return k; } bool isRunning() { return on; } bool isAttached() { return on; } };
template <class T, int L = MemLayoutDefault> struct Server : Cell<T, L> { using VLevel = Journal::VLevel; int r, c;
    Server(int R, int C, S b = "", S n = "", bool = false, VLevel = VLevel::V0, bool = false, bool = true) : r(R), c(C) { this->k = n + "|" + b; }
    void run() { if (!MEM.count(this->k)) MEM[this->k] = Mem{r, c, std::vector<int>((size_t)r * c)}; this->on = true; }
    void close() { this->on = false; } void stop() { close(); } };
template <class T, int L = MemLayoutDefault> struct Client : Cell<T, L> { using VLevel = Journal::VLevel;
    Client(S b = "", S n = "", bool = false, VLevel = VLevel::V0, bool = true) { this->k = n + "|" + b; }
    void attach() { if (!MEM.count(this->k)) throw std::runtime_error("no server"); this->on = true; } void close() { this->on = false; } void detach() { close(); } };
}
#include <../src/StringTensor.cpp>
using namespace EigenIPC;
typedef Journal::VLevel VL;
static std::mt19937 rng(1);
static int R(int n) { return rng() % n; }
static S rs(int level) {
    static const int B[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 255, 256, 257, 511, 512, 1019, 1020, 1021, 1022, 1023, 1024};
    int k = R(6), n = k < 2 ? B[R(23)] : k < 4 ? R(12) : k == 4 ? R(1025) : 1016 + R(9);
    S s(n, 'a'); int m = R(4); for (auto& c : s) c = m == 0 ? (char)(1 + R(255)) : m == 1 ? (char)(128 + R(128)) : m == 2 ? (char)(R(3) ? 255 : 1) : (char)('a' + R(26));
    return s; }
static S num(long x) { return std::to_string(x); }
static S show(const S& s) { char b[80]; S o = num(s.size()) + " bytes:"; for (size_t i = 0; i < s.size() && i < 8; i++) { snprintf(b, 80, " %02x", (unsigned char)s[i]); o += b; } return o; }
struct Two { virtual bool w1(const S&, int) = 0; virtual bool r1(S&, int) = 0; virtual bool wv(const std::vector<S>&, int) = 0; virtual bool rv(std::vector<S>&, int) = 0; virtual void run() = 0; virtual void close() = 0; virtual bool running() = 0; virtual ~Two() {} };
template <class T> struct One : Two { T t; template <class... A> One(A... a) : t(a...) {}
    bool w1(const S& s, int i) override { return t.write(s, i); } bool r1(S& s, int i) override { return t.read(s, i); }
    bool wv(const std::vector<S>& s, int i) override { return t.write(s, i); } bool rv(std::vector<S>& s, int i) override { return t.read(s, i); }
    void run() override { t.run(); } void close() override { t.close(); } bool running() override { return t.isRunning(); } };
static void history(int level) {
    hist.clear(); MEM.clear(); busy = false; bool c15 = prop == "C15";
    int L = R(8) ? 1 + R(7) : c15 ? R(2) * 40 : 40;
    One<StringTensor<StrServer>>* srv = new One<StringTensor<StrServer>>(L, S("b"), S("n"), false, VL::V0, false, true);
    std::unique_ptr<Two> o[3]; o[0].reset(srv); for (int i = 1; i < 3; i++) o[i].reset(new One<StringTensor<StrClient>>(S("b"), S("n"), false, VL::V0, true));
    bool on[3] = {false, false, false}; std::vector<S> slot(L); note("tensor of " + num(L) + " slots");
    if (!c15 || R(4)) for (int i = 0; i < 3; i++) { o[i]->run(); on[i] = true; }
    for (int step = 0; step < 30; step++) {
        int who = R(3); sh->runs++; S me = who ? "client " + num(who) : "server";
        if (c15 && !R(8)) { if (on[who]) { o[who]->close(); on[who] = false; note(me + ".close()"); } else { bool t = false; try { o[who]->run(); } catch (...) { t = true; } on[who] = !t; note(me + ".run()"); } if (o[who]->running() != on[who]) bad("isRunning() is wrong"); continue; }
        if (!R(12)) { // the server is started again with another number of slots
            for (int i = 0; i < 3; i++) { o[i]->close(); on[i] = false; }
            o[0].reset(); MEM.clear(); L = 1 + R(7); slot.assign(L, ""); o[0].reset(new One<StringTensor<StrServer>>(L, S("b"), S("n"), false, VL::V0, false, true));
            for (int i = 0; i < 3; i++) { o[i]->run(); on[i] = true; } note("restarted with " + num(L) + " slots"); continue; }
        if (!on[who] && !c15) continue;
        static const int BI[] = {-1, INT_MIN, INT_MAX, -2, INT_MIN + 1};
        bool list = R(2), wr = R(2); int k = list ? R(5) ? R(L + 1) : c15 ? R(L + 4) : 0 : 1, i = L ? R(L) : 0; if (list && !R(3)) { k = L; i = 0; }
        if (c15) { int z = R(6); if (z == 0) i = BI[R(5)]; else if (z == 1) i = L + R(4); else if (z == 2) i = L - 1; else if (z == 3 && list) i = (L > k ? L - k : 0) + R(2); }
        busy = c15 && !R(10);
        bool idx = i >= 0 && (long)i + k <= L; if (!c15 && !idx) continue;
        auto before = MEM; std::vector<S> v(k); S pre = rs(0).substr(0, 20); long longest = 0;
        for (auto& s : v) { s = rs(0); if (wr && c15 && !R(10)) s = S(1025 + (R(3) ? R(8) : R(4000)), 'x'); longest = std::max(longest, (long)s.size()); }
        bool exp = on[who] && idx && !busy && (!wr || longest <= 1024);
        note(me + (wr ? ".write(" : ".read(") + (list ? "list of " + num(k) : "") + (k ? (list ? " " : "") + show(v[0]) : "") + ", " + num(i) + ")" + (busy ? " while another process transfers" : ""));
        auto old = v; bool r;
        try { r = wr ? list ? o[who]->wv(v, i) : o[who]->w1(v[0], i) : list ? o[who]->rv(v, i) : o[who]->r1(v[0], i); } catch (std::exception& x) { bad(S("the request throws: ") + x.what()); return; }
        if (r != exp) bad(r ? "the request is accepted" : "the request is refused although it fits");
        if (!r) {
            if (v != old) bad("the caller's strings are changed by a refused read");
            for (auto& m : MEM) if (m.second.v != before[m.first].v) bad("a refused request changes the shared slots");
            continue; }
        if (wr) { for (int j = 0; j < k; j++) slot[i + j] = v[j];
            if (v != old) bad("a write changes the caller's strings");
            for (auto& m : MEM) for (int rr = 0; rr < m.second.rows; rr++) for (int cc = 0; cc < m.second.cols; cc++) if ((cc < i || cc >= i + k) && m.second.v[rr * m.second.cols + cc] != before[m.first].v[rr * m.second.cols + cc]) bad("a write changes another slot: " + num(cc));
        } else { if ((int)v.size() != k) bad("the list has another length");
            for (int j = 0; j < k; j++) if (v[j] != slot[i + j]) bad("slot " + num(i + j) + " is read as " + show(v[j]) + " instead of " + show(slot[i + j])); }
    }
    for (auto& x : o) x.reset();
}
int main(int c, char** a) {
    prop = a[1]; double end = now() + atof(a[2]); int level = c > 3 ? atoi(a[3]) : 1;
    sh = (Sh*)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int code = 0;
    for (int seed = 1; now() < end && !code && seed < (level > 1 ? 100000 : 400); seed++) {
        fflush(stdout); int p = fork();
        if (!p) { alarm(60); rng.seed(seed * 7919); for (int i = 0; i < 200 && now() < end; i++) history(level); fflush(stdout); _exit(0); }
        int st = 0; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        code = 1; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) printf("VIOL %s memory outside the tensor is accessed or the program ends (status %d) [%s]\n", prop.c_str(), st, sh->hist);
    }
    printf("RUNS %ld\n", sh->runs); return code; }
