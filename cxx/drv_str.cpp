// Driver for the string tensor (C14, C15).  Server<int> and Client<int> stay external: contracts (proved as C01-C09).
#include <new>
#include <../src/StringTensor.cpp>
using namespace EigenIPC;
#define EXP extern "C" __attribute__((noinline, used))
typedef Journal::VLevel VL; typedef const std::string& S; typedef std::vector<std::string> V;
typedef StringTensor<StrServer> TS; typedef StringTensor<StrClient> TC;
EXP void drv_st_make_S(void* at, int len, S b, S n, bool v, int l, bool f, bool safe) { new (at) TS(len, b, n, v, (VL)l, f, safe); }
EXP void drv_st_make_C(void* at, S b, S n, bool v, int l, bool safe) { new (at) TC(b, n, v, (VL)l, safe); }
#define D(K, T) \
EXP unsigned long drv_st_sizeof_##K() { return sizeof(T); } \
EXP void drv_st_run_##K(T* t) { t->run(); } \
EXP void drv_st_close_##K(T* t) { t->close(); } \
EXP void drv_st_destroy_##K(T* t) { t->~StringTensor(); } \
EXP bool drv_st_running_##K(T* t) { return t->isRunning(); } \
EXP int drv_st_length_##K(T* t) { return t->getLength(); } \
EXP bool drv_st_write1_##K(T* t, S s, int i) { return t->write(s, i); } \
EXP bool drv_st_read1_##K(T* t, std::string& s, int i) { return t->read(s, i); } \
EXP bool drv_st_writev_##K(T* t, const V& v, int i) { return t->write(v, i); } \
EXP bool drv_st_readv_##K(T* t, V& v, int i) { return t->read(v, i); }
D(S, TS) D(C, TC)
EXP void drv_st_vec(const V* v, const std::string** b, unsigned long* n) { *b = v->data(); *n = v->size(); }
template <typename X> __attribute__((noinline)) void eipc_probe(X const& x, void const** base, long* v) { *base = x.data(); v[0] = x.rows(); v[1] = x.cols(); v[2] = x.rowStride(); v[3] = x.colStride(); }
EXP void drv_probe_ref(const TRef<int>& t, void const** b, long* v) { eipc_probe(t, b, v); }
EXP void drv_probe_map(const TensorView<int>& t, void const** b, long* v) { eipc_probe(t, b, v); }
