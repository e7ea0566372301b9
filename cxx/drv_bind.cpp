// Driver for the Python entry points (C23): the unmodified binding sources.
#include "drv_py.cpp"
#include <EigenIPC/../../bindings/PyEigenIPC/src/PyProducer.cpp>
#include <EigenIPC/../../bindings/PyEigenIPC/src/PyConsumer.cpp>
#include <EigenIPC/../../bindings/PyEigenIPC/src/PyStringTensor.cpp>
EXP void drv_b_prod(pybind11::module_& m) { PyEigenIPC::PyProducer::bind_Producer(m); }
EXP void drv_b_cons(pybind11::module_& m) { PyEigenIPC::PyConsumer::bind_Consumer(m); }
EXP void drv_b_strS(pybind11::module_& m) { PyEigenIPC::PyStringTensor::declare_StringTensorServer(m); }
EXP void drv_b_strC(pybind11::module_& m) { PyEigenIPC::PyStringTensor::declare_StringTensorClient(m); }
EXP void drv_b_facS(pybind11::module_& m) { PyEigenIPC::PyServer::bindServerFactory(m); }
EXP void drv_b_facC(pybind11::module_& m) { PyEigenIPC::PyClient::bindClientFactory(m); }
EXP int drv_b_row() { return EigenIPC::RowMajor; }
EXP int drv_b_col() { return EigenIPC::ColMajor; }
EXP void drv_b_tuple(std::tuple<std::string, bool>* t, void const** o) { o[0] = &std::get<0>(*t); o[1] = &std::get<1>(*t); }
#include <EigenIPC/../../bindings/PyEigenIPC/PyEigenIPC.cpp>
EXP void drv_b_module(pybind11::module_& m) { pybind11_init_PyEigenIPC(m); }
#define DTV(N) EXP int drv_b_dt_##N() { return (int)EigenIPC::DType::N; }
DTV(Bool) DTV(Int) DTV(Float) DTV(Double)
#define VLV(N) EXP int drv_b_vl_##N() { return (int)EigenIPC::Journal::VLevel::N; }
VLV(V0) VLV(V1) VLV(V2) VLV(V3)
#define LTV(N) EXP int drv_b_lt_##N() { return (int)EigenIPC::Journal::LogType::N; }
LTV(WARN) LTV(EXCEP) LTV(INFO) LTV(STAT)
