// Driver for the Python bindings (C21): the unmodified binding sources plus probes of the types they exchange.
#include <EigenIPC/../../bindings/PyEigenIPC/src/PyServer.cpp>
#include <EigenIPC/../../bindings/PyEigenIPC/src/PyClient.cpp>
#define EXP extern "C" __attribute__((noinline, used))
template <typename X> __attribute__((noinline)) void eipc_probe(X const& x, void const** base, long* v) {
    *base = x.data(); v[0] = x.rows(); v[1] = x.cols(); v[2] = x.rowStride(); v[3] = x.colStride(); v[4] = sizeof(typename X::Scalar); }
EXP void drv_py_info(pybind11::buffer_info* b, void** o) { o[0] = &b->ptr; o[1] = &b->itemsize; o[2] = &b->size; o[3] = &b->format; o[4] = &b->ndim; o[5] = &b->shape; o[6] = &b->strides; o[7] = &b->readonly; }
#define DRV(T, S, L) \
EXP void drv_py_view_##T(EigenIPC::TensorView<S, L>* t, void const** base, long* v) { eipc_probe(*t, base, v); } \
EXP void drv_py_bindS_##T(pybind11::module_& m) { PyEigenIPC::PyServer::bindServerT<S, L>(m, "S"); } \
EXP void drv_py_bindC_##T(pybind11::module_& m) { PyEigenIPC::PyClient::bindClientT<S, L>(m, "C"); }
using EigenIPC::RowMajor; using EigenIPC::ColMajor;
DRV(dR, double, RowMajor) DRV(dC, double, ColMajor)
DRV(fR, float, RowMajor) DRV(fC, float, ColMajor)
DRV(iR, int, RowMajor) DRV(iC, int, ColMajor)
DRV(bR, bool, RowMajor) DRV(bC, bool, ColMajor)
EXP int drv_py_dtype_d() { return (int)EigenIPC::CppTypeToDType<double>::value; }
EXP int drv_py_dtype_f() { return (int)EigenIPC::CppTypeToDType<float>::value; }
EXP int drv_py_dtype_i() { return (int)EigenIPC::CppTypeToDType<int>::value; }
EXP int drv_py_dtype_b() { return (int)EigenIPC::CppTypeToDType<bool>::value; }
EXP void drv_py_wrapS(pybind11::module_& m) { PyEigenIPC::PyServer::bind_ServerWrapper(m); }
EXP void drv_py_wrapC(pybind11::module_& m) { PyEigenIPC::PyClient::bind_ClientWrapper(m); }
