// Bounded execution of the header-only parts against their specification (failing inputs for C19, C20).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <random>
#include <vector>
#include <string>
#include <EigenIPC/Helpers.hpp>
#include <EigenIPC/ReturnCodes.hpp>
using namespace EigenIPC;
typedef unsigned long long u64;
static long runs = 0; static int viol = 0;
static const struct { const char* n; u64 v; } NAMES[] = {
#include "names.inc"
};
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

template <typename S, int L> void view1(const char* T, Tensor<S, L>& t, int row, int col, int r, int c) {
    runs++;
    bool inside = row >= 0 && col >= 0 && r >= 0 && c >= 0 && row < t.rows() && col < t.cols() && (long)row + r <= t.rows() && (long)col + c <= t.cols();
    bool threw = false, bad = false; std::string why;
    try {
        TensorView<S, L> v = helpers::createViewFrom<S, L>(t, row, col, r, c);
        if (inside) {
            if (v.rows() != r || v.cols() != c) bad = true, why = "view has size " + std::to_string(v.rows()) + " x " + std::to_string(v.cols());
            for (int i = 0; i < r && !bad; i++) for (int j = 0; j < c && !bad; j++)
                if (&v.coeffRef(i, j) != &t.coeffRef(row + i, col + j)) bad = true, why = "element (" + std::to_string(i) + "," + std::to_string(j) + ") is other memory";
        }
    } catch (std::exception&) { threw = true; }
    if (threw == inside) bad = true, why = inside ? "refused" : "not refused";
    if (bad && !viol++) printf("VIOL C20 createViewFrom<%s> of a %ld x %ld tensor at (%d, %d) size %d x %d: %s\n", T, (long)t.rows(), (long)t.cols(), row, col, r, c, why.c_str());
}
template <typename S, int L> void views(const char* T) {
    const int lim[] = {-2147483647 - 1, -1, 2147483647};
    for (int R = 0; R <= 4; R++) for (int C = 0; C <= 4; C++) {
        Tensor<S, L> t(R, C);
        for (int row = -1; row <= R + 1; row++) for (int col = -1; col <= C + 1; col++) for (int r = -1; r <= R + 1; r++) for (int c = -1; c <= C + 1; c++) view1<S, L>(T, t, row, col, r, c);
        for (int x : lim) { view1<S, L>(T, t, x, 0, 1, 1); view1<S, L>(T, t, 0, x, 1, 1); view1<S, L>(T, t, 0, 0, x, 1); view1<S, L>(T, t, 0, 0, 1, x); view1<S, L>(T, t, 1, 1, x, x); }
        if (viol) return;
    }
    const int big[][2] = {{1, 300}, {300, 1}, {260, 257}, {70000, 2}, {2, 70000}, {1, 40000}, {46342, 1}};
    std::mt19937 g(1);
    for (auto& b : big) { Tensor<S, L> t(b[0], b[1]); for (int k = 0; k < 40 && !viol; k++) { int row = g() % b[0], col = g() % b[1]; view1<S, L>(T, t, row, col, std::min<int>(5, b[0] - row), std::min<int>(5, b[1] - col));
        view1<S, L>(T, t, row, col, b[0] - row, std::min<int>(3, b[1] - col)); view1<S, L>(T, t, row, col, b[0] - row + 1, 1); view1<S, L>(T, t, row, col, 1, b[1] - col + 1); } }
    // offsets beyond 2^31 elements: only addresses are formed; the storage is reserved, not touched
    if (sizeof(S) == 1) { Tensor<S, L> t(70000, 70000); view1<S, L>(T, t, 69990, 69990, 3, 3); view1<S, L>(T, t, 40000, 50000, 2, 4); }
}
static void codes(double end) {
    const int n = sizeof(NAMES) / sizeof(*NAMES);
    auto bad = [&](const std::string& s) { if (!viol++) printf("VIOL C19 %s\n", s.c_str()); };
    u64 all = 0;
    for (int i = 0; i < n; i++) {
        u64 v = NAMES[i].v; runs++;
        if (!strcmp(NAMES[i].n, "NONE")) { if (v) bad("NONE is not empty"); } else {
            if (!v || (v & (v - 1))) bad(std::string(NAMES[i].n) + " is not a single bit");
            if (all & v) bad(std::string(NAMES[i].n) + " shares its bit with another condition");
            all |= v; }
        if (getDescription((ReturnCode)v) != NAMES[i].n) bad(std::string(NAMES[i].n) + " is described as " + getDescription((ReturnCode)v));
    }
    u64 RESET = 1; for (int i = 0; i < n; i++) if (!strcmp(NAMES[i].n, "RESET")) RESET = NAMES[i].v;
    auto set = [&](u64 m) {
        runs++; std::string e = "[";
        for (int b = 0; b < 64; b++) if (m >> b & 1) for (int i = 0; i < n; i++) if (NAMES[i].v == 1ULL << b) { if (e.size() > 1) e += ", "; e += NAMES[i].n; }
        std::string got = getDescriptions((ReturnCode)m);
        // the set of names counts, not the punctuation
        auto names = [](const std::string& s) { std::vector<std::string> v; std::string c; for (char ch : s) if (isalnum((unsigned char)ch) || ch == '_') c += ch; else if (c.size()) v.push_back(c), c.clear(); if (c.size()) v.push_back(c); return v; };
        if (names(got) != names(e + "]")) bad("getDescriptions(" + std::to_string(m) + ") = " + got + ", expected " + e + "]");
    };
    set(0); for (int i = 0; i < n; i++) set(NAMES[i].v); set(all);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) set(NAMES[i].v | NAMES[j].v);
    std::mt19937_64 g(7);
    auto pair = [&](u64 a, u64 b) {
        runs++;
        if (a != RESET && b != RESET) {
            if ((u64)((ReturnCode)a + (ReturnCode)b) != (a | b)) bad("operator+(" + std::to_string(a) + ", " + std::to_string(b) + ") = " + std::to_string((u64)((ReturnCode)a + (ReturnCode)b)));
            if ((u64)((ReturnCode)a - (ReturnCode)b) != (a & ~b)) bad("operator-(" + std::to_string(a) + ", " + std::to_string(b) + ") = " + std::to_string((u64)((ReturnCode)a - (ReturnCode)b)));
        }
        if ((u64)((ReturnCode)a + (ReturnCode)RESET) != 0) bad("adding RESET to " + std::to_string(a) + " does not empty the set");
        if (isin((ReturnCode)a, (ReturnCode)b) != ((a & b) == a)) bad("isin(" + std::to_string(a) + ", " + std::to_string(b) + ") is wrong");
    };
    std::vector<u64> sp = {0, 1, 2, 3, ~0ULL, 1ULL << 31, 1ULL << 32, 1ULL << 62, 1ULL << 63, 0xffffffffULL, 0x80000000ULL};
    for (u64 a : sp) for (u64 b : sp) pair(a, b);
    for (int i = 0; i < 64; i++) for (int j = 0; j < 64; j++) pair(1ULL << i, 1ULL << j), pair(~(1ULL << i), 1ULL << j);
    for (long k = 0; k < 200000 && !viol && now() < end; k++) { u64 a = g(), b = g(); pair(a, b); pair(a & g(), a | b); if (k % 50 == 0) set(a & all), set(a & b & all); }
}
int main(int ac, char** av) {
    double end = now() + (ac > 2 ? atof(av[2]) : 30);
    if (!strcmp(av[1], "C19")) codes(end);
    if (!strcmp(av[1], "C20")) {
        views<double, RowMajor>("double, RowMajor"); views<double, ColMajor>("double, ColMajor"); views<float, RowMajor>("float, RowMajor"); views<float, ColMajor>("float, ColMajor");
        views<int, RowMajor>("int, RowMajor"); views<int, ColMajor>("int, ColMajor"); views<bool, RowMajor>("bool, RowMajor"); views<bool, ColMajor>("bool, ColMajor");
    }
    printf("RUNS %ld\n", runs); return viol != 0;
}
