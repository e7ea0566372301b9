// Drivers for the header-only parts: sub-views, return codes, the journal.
#include <new>
#include <string>
#include <EigenIPC/Helpers.hpp>
#include <EigenIPC/ReturnCodes.hpp>
#include <EigenIPC/Journal.hpp>

using namespace EigenIPC;
#define EXP extern "C" __attribute__((noinline, used))

template <typename X> __attribute__((noinline)) void eipc_probe(X const& x, void const** base, long* v) {
    *base = x.data(); v[0] = x.rows(); v[1] = x.cols(); v[2] = x.rowStride(); v[3] = x.colStride(); v[4] = sizeof(typename X::Scalar); }

#define DRV(T, S, L) \
EXP unsigned long drv_view_sizeof_##T() { return sizeof(TensorView<S, L>); } \
EXP void drv_view_make_##T(void* at, Tensor<S, L>* t, int row, int col, int r, int c) { new (at) TensorView<S, L>(helpers::createViewFrom<S, L>(*t, row, col, r, c)); } \
EXP void drv_view_probe_##T(TensorView<S, L>* t, void const** base, long* v) { eipc_probe(*t, base, v); } \
EXP void drv_tensor_probe_##T(Tensor<S, L>* t, void const** base, long* v) { *base = t->data(); v[0] = t->rows(); v[1] = t->cols(); v[2] = t->rowStride(); v[3] = t->colStride(); v[4] = sizeof(S); }

DRV(dR, double, RowMajor) DRV(dC, double, ColMajor)
DRV(fR, float, RowMajor) DRV(fC, float, ColMajor)
DRV(iR, int, RowMajor) DRV(iC, int, ColMajor)
DRV(bR, bool, RowMajor) DRV(bC, bool, ColMajor)

EXP unsigned long long drv_rc_add(unsigned long long a, unsigned long long b) { return (unsigned long long)((ReturnCode)a + (ReturnCode)b); }
EXP unsigned long long drv_rc_sub(unsigned long long a, unsigned long long b) { return (unsigned long long)((ReturnCode)a - (ReturnCode)b); }
EXP bool drv_rc_isin(unsigned long long sub, unsigned long long code) { return isin((ReturnCode)sub, (ReturnCode)code); }
EXP void drv_rc_name(void* at, unsigned long long c) { new (at) std::string(getDescription((ReturnCode)c)); }
EXP void drv_rc_names(void* at, unsigned long long c) { new (at) std::string(getDescriptions((ReturnCode)c)); }
EXP void drv_rc_tostring(void* at, unsigned long long c) { new (at) std::string(toString((ReturnCode)c)); }
ReturnCode eipc_rc;

EXP void drv_log(Journal* j, const std::string& m, const std::string& t, int type, bool thr) { j->log(m, t, (Journal::LogType)type, thr); }
EXP void drv_slog(const std::string& c, const std::string& m, const std::string& t, int type, bool thr) { Journal::log(c, m, t, (Journal::LogType)type, thr); }
EXP void drv_journal(void* at, const std::string& c) { new (at) Journal(c); }
EXP unsigned long drv_journal_sizeof() { return sizeof(Journal); }
