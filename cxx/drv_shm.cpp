// Verification drivers: the real sources are included unchanged, and every driver calls the public
// API only (plus the public fields of SharedMemConfig, which are the naming protocol).
#include <EigenIPC/../../src/Server.cpp>
#include <EigenIPC/../../src/Client.cpp>

using namespace EigenIPC;
#define EXP extern "C" __attribute__((noinline, used))

// what an Eigen expression addresses, read through its own accessors
template <typename X> __attribute__((noinline)) void eipc_probe(X const& x, void const** base, long* v) {
    *base = x.data(); v[0] = x.rows(); v[1] = x.cols(); v[2] = x.rowStride(); v[3] = x.colStride(); v[4] = sizeof(typename X::Scalar); }
#define PROBES(S, L) \
template void eipc_probe(Eigen::Block<MMap<S, L>, -1, -1, false> const&, void const**, long*); \
template void eipc_probe(Eigen::Block<const MMap<S, L>, -1, -1, false> const&, void const**, long*); \
template void eipc_probe(Eigen::Block<TensorView<S, L>, -1, -1, false> const&, void const**, long*); \
template void eipc_probe(Eigen::Block<const TensorView<S, L>, -1, -1, false> const&, void const**, long*); \
template void eipc_probe(Eigen::Block<TRef<S, L>, -1, -1, false> const&, void const**, long*); \
template void eipc_probe(Eigen::Block<const TRef<S, L>, -1, -1, false> const&, void const**, long*); \
template void eipc_probe(MMap<S, L> const&, void const**, long*); \
template void eipc_probe(TRef<S, L> const&, void const**, long*); \
template void eipc_probe(TensorView<S, L> const&, void const**, long*); \
template void eipc_probe(Tensor<S, L> const&, void const**, long*);
PROBES(double, RowMajor) PROBES(double, ColMajor) PROBES(float, RowMajor) PROBES(float, ColMajor)
PROBES(int, RowMajor) PROBES(int, ColMajor) PROBES(bool, RowMajor) PROBES(bool, ColMajor)

// sizes, names and layout facts the verifier reads back
EXP SharedMemConfig* drv_cfg(void* at, const std::string& base, const std::string& ns) { return new (at) SharedMemConfig(base, ns); }
EXP const std::string* drv_cfg_item(SharedMemConfig* c, int i) {
    switch (i) {
        case 0: return &c->mem_path;
        case 1: return &c->mem_path_nrows;
        case 2: return &c->mem_path_ncols;
        case 3: return &c->mem_path_dtype;
        case 4: return &c->mem_path_mem_layout;
        case 5: return &c->mem_path_clients_counter;
        case 6: return &c->mem_path_isrunning;
        case 7: return &c->mem_path_data_sem;
        case 8: return &c->mem_path_server_sem;
    }
    return nullptr;
}
EXP unsigned long drv_sizeof_cfg() { return sizeof(SharedMemConfig); }

#define DRV(T, S, L) \
typedef Server<S, L> SRV_##T; typedef Client<S, L> CLT_##T; \
EXP unsigned long drv_srv_sizeof_##T() { return sizeof(SRV_##T); } \
EXP void drv_srv_ctor_##T(void* at, int r, int c, const std::string& base, const std::string& ns, bool verbose, int vl, bool force, bool safe) { \
    new (at) SRV_##T(r, c, base, ns, verbose, (Journal::VLevel)vl, force, safe); } \
EXP void drv_srv_dtor_##T(SRV_##T* s) { s->~Server(); } \
EXP void drv_srv_run_##T(SRV_##T* s) { s->run(); } \
EXP void drv_srv_stop_##T(SRV_##T* s) { s->stop(); } \
EXP void drv_srv_close_##T(SRV_##T* s) { s->close(); } \
EXP bool drv_srv_isrunning_##T(SRV_##T* s) { return s->isRunning(); } \
EXP int drv_srv_nclients_##T(SRV_##T* s) { return s->getNClients(); } \
EXP int drv_srv_nrows_##T(SRV_##T* s) { return s->getNRows(); } \
EXP int drv_srv_ncols_##T(SRV_##T* s) { return s->getNCols(); } \
EXP int drv_srv_dtype_##T(SRV_##T* s) { return (int)s->getScalarType(); } \
EXP int drv_srv_layout_##T(SRV_##T* s) { return s->getMemLayout(); } \
EXP void drv_srv_acq_##T(SRV_##T* s) { s->dataSemAcquire(); } \
EXP void drv_srv_rel_##T(SRV_##T* s) { s->dataSemRelease(); } \
EXP bool drv_srv_writeref_##T(SRV_##T* s, S* p, long rows, long cols, long outer, int row, int col) { \
    Eigen::Map<Tensor<S, L>, Eigen::Unaligned, Eigen::OuterStride<>> m(p, rows, cols, Eigen::OuterStride<>(outer)); \
    return s->write(m, row, col); } \
EXP bool drv_srv_writeview_##T(SRV_##T* s, S* p, long rows, long cols, long outer, long inner, int row, int col) { \
    TensorView<S, L> m(p, rows, cols, DStrides(outer, inner)); return s->write(m, row, col); } \
EXP bool drv_srv_readref_##T(SRV_##T* s, S* p, long rows, long cols, long outer, int row, int col) { \
    Eigen::Map<Tensor<S, L>, Eigen::Unaligned, Eigen::OuterStride<>> m(p, rows, cols, Eigen::OuterStride<>(outer)); \
    return s->read(m, row, col); } \
EXP bool drv_srv_readview_##T(SRV_##T* s, S* p, long rows, long cols, long outer, long inner, int row, int col) { \
    TensorView<S, L> m(p, rows, cols, DStrides(outer, inner)); return s->read(m, row, col); } \
EXP unsigned long drv_clt_sizeof_##T() { return sizeof(CLT_##T); } \
EXP void drv_clt_ctor_##T(void* at, const std::string& base, const std::string& ns, bool verbose, int vl, bool safe) { \
    new (at) CLT_##T(base, ns, verbose, (Journal::VLevel)vl, safe); } \
EXP void drv_clt_dtor_##T(CLT_##T* s) { s->~Client(); } \
EXP void drv_clt_attach_##T(CLT_##T* s) { s->attach(); } \
EXP void drv_clt_detach_##T(CLT_##T* s) { s->detach(); } \
EXP void drv_clt_close_##T(CLT_##T* s) { s->close(); } \
EXP bool drv_clt_isattached_##T(CLT_##T* s) { return s->isAttached(); } \
EXP int drv_clt_nrows_##T(CLT_##T* s) { return s->getNRows(); } \
EXP int drv_clt_ncols_##T(CLT_##T* s) { return s->getNCols(); } \
EXP int drv_clt_dtype_##T(CLT_##T* s) { return (int)s->getScalarType(); } \
EXP int drv_clt_layout_##T(CLT_##T* s) { return s->getMemLayout(); } \
EXP void drv_clt_acq_##T(CLT_##T* s) { s->dataSemAcquire(); } \
EXP void drv_clt_rel_##T(CLT_##T* s) { s->dataSemRelease(); } \
EXP bool drv_clt_writeref_##T(CLT_##T* s, S* p, long rows, long cols, long outer, int row, int col) { \
    Eigen::Map<Tensor<S, L>, Eigen::Unaligned, Eigen::OuterStride<>> m(p, rows, cols, Eigen::OuterStride<>(outer)); \
    return s->write(m, row, col); } \
EXP bool drv_clt_writeview_##T(CLT_##T* s, S* p, long rows, long cols, long outer, long inner, int row, int col) { \
    TensorView<S, L> m(p, rows, cols, DStrides(outer, inner)); return s->write(m, row, col); } \
EXP bool drv_clt_readref_##T(CLT_##T* s, S* p, long rows, long cols, long outer, int row, int col) { \
    Eigen::Map<Tensor<S, L>, Eigen::Unaligned, Eigen::OuterStride<>> m(p, rows, cols, Eigen::OuterStride<>(outer)); \
    return s->read(m, row, col); } \
EXP bool drv_clt_readview_##T(CLT_##T* s, S* p, long rows, long cols, long outer, long inner, int row, int col) { \
    TensorView<S, L> m(p, rows, cols, DStrides(outer, inner)); return s->read(m, row, col); }

DRV(dR, double, RowMajor) DRV(dC, double, ColMajor)
DRV(fR, float, RowMajor) DRV(fC, float, ColMajor)
DRV(iR, int, RowMajor) DRV(iC, int, ColMajor)
DRV(bR, bool, RowMajor) DRV(bC, bool, ColMajor)
