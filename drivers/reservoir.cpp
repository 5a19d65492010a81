// C05, C24: how reservoir snapshots come about and are merged
#include "common.hpp"
#include <cxxmetrics/snapshots.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/histogram.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
typedef reservoir_snapshot rs;
typedef histogram_snapshot hs;
typedef const int64_t* ip;

// construction: arg0 is the raw storage of the snapshot
X void mk_range(void* p, ip* b, ip* e, std::size_t n) { new (p) rs(*b, *e, n); }
X void mk_array(void* p, const int64_t* a, std::size_t n) { new (p) rs(a, n); }
X void mk_darray(void* p, const double* a, std::size_t n) { new (p) rs(a, n); }
X void mk_move(void* p, rs* o) { new (p) rs(std::move(*o)); }
X void mk_hist(void* p, rs* o, uint64_t n) { new (p) hs(std::move(*o), n); }
X void mk_hmove(void* p, hs* o) { new (p) hs(std::move(*o)); }
X void mk_tim(void* p, hs* o, meter_snapshot* m) { new (p) timer_snapshot(std::move(*o), std::move(*m)); }
X void mk_tmove(void* p, timer_snapshot* o) { new (p) timer_snapshot(std::move(*o)); }
// assignment and merging: arg0 is the snapshot
X void as_move(rs* p, rs* o) { *p = std::move(*o); }
X void as_hmove(hs* p, hs* o) { *p = std::move(*o); }
X void as_tmove(timer_snapshot* p, timer_snapshot* o) { *p = std::move(*o); }
X void mg_hist(hs* p, const hs* o) { p->merge(*o); }
X void mg_tim(timer_snapshot* p, const timer_snapshot* o) { p->merge(*o); }
X void mg_met(meter_snapshot* p, const meter_snapshot* o) { p->merge(*o); }
// observation
X void ob_q0(metric_value* r, const rs* p) { new (r) metric_value(p->value<0_p>()); }
X void ob_q1(metric_value* r, const rs* p) { new (r) metric_value(p->value<1_p>()); }
X void ob_q50(metric_value* r, const rs* p) { new (r) metric_value(p->value<50_p>()); }
X void ob_q99(metric_value* r, const rs* p) { new (r) metric_value(p->value<99.9_p>()); }
X void ob_q100(metric_value* r, const rs* p) { new (r) metric_value(p->value<100_p>()); }
X void ob_min(metric_value* r, const rs* p) { new (r) metric_value(p->min()); }
X void ob_max(metric_value* r, const rs* p) { new (r) metric_value(p->max()); }
X void ob_mean(metric_value* r, const rs* p) { new (r) metric_value(p->mean()); }
X std::size_t ob_size(const rs* p) { return p->size(); }
X uint64_t ob_count(const hs* p) { return p->count(); }
X void probe_sample(const metric_value*, long double);
struct hnd { void operator()(const metric_value& v, long double q) const { probe_sample(&v, q); } };
X void ob_sample(const rs* p, std::size_t n) { p->sample(n, hnd()); }
