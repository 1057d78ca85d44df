#include "common/spin_lock_mutex.h"
#include "common/atomic_unique_ptr.h"
#include "recorder/metrics_tracker.h"
namespace vf {
struct Elem { ~Elem(); int x; };
struct Observer : lightstep::MetricsObserver {
  Observer();
  virtual void vf_key();
  void OnSpansSent(int) noexcept override;
  void OnSpansDropped(int) noexcept override;
  void OnFlush() noexcept override;
};
Observer::Observer() {}
void Observer::vf_key() {}
}
using AUP = lightstep::AtomicUniquePtr<vf::Elem>;
extern "C" {
void vf_lock(lightstep::SpinLockMutex& m) { m.lock(); }
void vf_unlock(lightstep::SpinLockMutex& m) { m.unlock(); }
void vf_spin_ctor(void* p) { new (p) lightstep::SpinLockMutex{}; }
bool vf_swap_if_null(AUP& a, std::unique_ptr<vf::Elem>& o) { return a.SwapIfNull(o); }
void vf_swap(AUP& a, std::unique_ptr<vf::Elem>& o) { a.Swap(o); }
void vf_reset(AUP& a, vf::Elem* p) { a.Reset(p); }
void vf_dtor(AUP& a) { a.~AUP(); }
bool vf_is_null(AUP& a) { return a.IsNull(); }
vf::Elem* vf_get(AUP& a) { return a.Get(); }
vf::Elem* vf_star(AUP& a) { return &*a; }
vf::Elem* vf_arrow(AUP& a) { return a.operator->(); }
void vf_aup_ctor(void* p) { new (p) AUP{}; }
void vf_on_dropped(lightstep::MetricsTracker& t, int n) { t.OnSpansDropped(n); }
int vf_num_dropped(lightstep::MetricsTracker& t) { return t.num_dropped_spans(); }
void vf_tracker_ctor(void* p, lightstep::MetricsObserver& o) { new (p) lightstep::MetricsTracker{o}; }
}
