// Driver for condition variables, producers and consumers (C16-C18).  Server<int> and Client<int> stay external: contracts.
#include <new>
#include <functional>
#include <../src/CondVar.cpp>
#include <../src/Producer.cpp>
#include <../src/Consumer.cpp>
using namespace EigenIPC;
#define EXP extern "C" __attribute__((noinline, used))
typedef ConditionVariable CV; typedef CV::ScopedLock Lock; typedef CV::NamedMutex Mutex;
typedef Journal::VLevel VL; typedef const std::string& S; typedef std::function<bool()> F;
EXP unsigned long drv_cv_sizeof() { return sizeof(CV); }
EXP void drv_cv_make(void* at, bool srv, S b, S n, bool v, int l, bool f) { new (at) CV(srv, b, n, v, (VL)l, f); }
EXP void drv_cv_destroy(CV* c) { c->~CV(); }
EXP void drv_cv_close(CV* c) { c->close(); }
EXP void drv_cv_lock(CV* c, void* at) { new (at) Lock(c->lock()); }
EXP void drv_cv_lock_static(Mutex* m, void* at) { new (at) Lock(CV::lock(*m)); }
EXP void drv_cv_unlock(Lock* l) { CV::unlock(*l); }
EXP void drv_cv_wait(CV* c, Lock* l) { c->wait(*l); }
EXP void drv_cv_wait_for(CV* c, Lock* l, F* f) { c->wait_for(*l, *f); }
EXP bool drv_cv_timedwait(CV* c, Lock* l, unsigned ms) { return c->timedwait(*l, ms); }
EXP bool drv_cv_timedwait_for(CV* c, Lock* l, unsigned ms, F* f) { return c->timedwait_for(*l, ms, *f); }
EXP void drv_cv_notify_one(CV* c) { c->notify_one(); }
EXP void drv_cv_notify_all(CV* c) { c->notify_all(); }
EXP void drv_cv_names(CV* c, void* at, void* at2) { new (at) std::string(c->cond_var_path()); new (at2) std::string(c->mutex_path()); }
EXP unsigned long drv_lock_sizeof() { return sizeof(Lock); }
EXP bool drv_lock_owns(Lock* l) { return l->owns(); }
EXP Mutex* drv_lock_mutex(Lock* l) { return l->mutex(); }
EXP void drv_lock_destroy(Lock* l) { l->~Lock(); }
EXP unsigned long drv_pr_sizeof() { return sizeof(Producer); }
EXP void drv_pr_make(void* at, S b, S n, bool v, int l, bool f) { new (at) Producer(b, n, v, (VL)l, f); }
EXP void drv_pr_destroy(Producer* p) { p->~Producer(); }
EXP void drv_pr_run(Producer* p) { p->run(); }
EXP void drv_pr_close(Producer* p) { p->close(); }
EXP void drv_pr_trigger(Producer* p) { p->trigger(); }
EXP bool drv_pr_wait_ack(Producer* p, int n, int ms) { return p->wait_ack_from(n, ms); }
EXP unsigned long drv_co_sizeof() { return sizeof(Consumer); }
EXP void drv_co_make(void* at, S b, S n, bool v, int l) { new (at) Consumer(b, n, v, (VL)l); }
EXP void drv_co_destroy(Consumer* p) { p->~Consumer(); }
EXP void drv_co_run(Consumer* p) { p->run(); }
EXP void drv_co_close(Consumer* p) { p->close(); }
EXP bool drv_co_wait(Consumer* p, int ms) { return p->wait(ms); }
EXP bool drv_co_ack(Consumer* p) { return p->ack(); }
EXP bool drv_co_wait_and_ack(Consumer* p, F* f, int ms) { return p->wait_and_ack(*f, ms); }
template <typename X> __attribute__((noinline)) void eipc_probe(X const& x, void const** base, long* v) { *base = x.data(); v[0] = x.rows(); v[1] = x.cols(); }
EXP void drv_probe_ref(const TRef<int>& t, void const** b, long* v) { eipc_probe(t, b, v); }
EXP void drv_probe_map(const TensorView<int>& t, void const** b, long* v) { eipc_probe(t, b, v); }
EXP void drv_probe_ten(const Tensor<int>& t, void const** b, long* v) { eipc_probe(t, b, v); }
EXP void drv_ptime_get(const boost::posix_time::ptime* t, boost::int64_t* out) { *out = (boost::int64_t)(t->date().day_count().as_number()); }
EXP unsigned long drv_ptime_sizeof() { return sizeof(boost::posix_time::ptime); }
