// C04: copies and assignments; arg0 is the target, arg1 the source
#include "common.hpp"
#include <cxxmetrics/counter.hpp>
#include <cxxmetrics/gauge.hpp>
#include <cxxmetrics/ewma.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
X int64_t probe_now(const void*);
// a clock with a state of its own
struct clk { const void* at; std::chrono::steady_clock::time_point operator()() const noexcept { return std::chrono::steady_clock::time_point(std::chrono::steady_clock::duration(probe_now(at))); } };
#define COPY(K) \
    X void cy_copy__##K(K* r, const K* o) { new (r) K(*o); } \
    X K* cy_assign__##K(K* r, const K* o) { return &(*r = *o); }
#define MOVE(K) \
    X void cy_move__##K(K* r, K* o) { new (r) K(std::move(*o)); } \
    X K* cy_massign__##K(K* r, K* o) { return &(*r = std::move(*o)); }
#define SNAP(K, S) X void cy_obs_snap__##K(void* to, K* r) { new (to) S(r->snapshot()); }
#define CSNAP(K, S) X void cy_obs_csnap__##K(void* to, const K* r) { new (to) S(r->snapshot()); }
#define TWO(K) X void cy_obs_update__##K(typename K::value_type v, K* r) { r->update(v); } CSNAP(K, reservoir_snapshot) COPY(K)

#define CNT(K, T) typedef counter<T> K; COPY(K) MOVE(K) CSNAP(K, cumulative_value_snapshot) X T cy_obs_inc__##K(T v, K* r) { return *r += v; } X T cy_obs_val__##K(int, const K* r) { return r->value(); }
CNT(count_i, int64_t) CNT(count_u32, uint32_t)

#define EWI(K, T) typedef internal::ewma<clk, period(1_min), period(5_sec), T> K; COPY(K) \
    X T cy_obs_rate__##K(int, K* r) { return r->rate(); } X T cy_obs_crate__##K(int, const K* r) { return r->rate(); } X void cy_obs_mark__##K(T v, K* r) { r->mark(v); }
EWI(ewma_clk_d, double) EWI(ewma_clk_i, int64_t) EWI(ewma_clk_f, float)
#define EWP(K, ...) typedef ewma<__VA_ARGS__> K; COPY(K) SNAP(K, average_value_snapshot) \
    X double cy_obs_rate__##K(int, K* r) { return r->rate(); } X double cy_obs_crate__##K(int, const K* r) { return r->rate(); } X void cy_obs_mark__##K(double v, K* r) { r->mark(v); }
EWP(ewma_d, 1_min, 5_sec, double) EWP(ewma_i, 10_sec, 1_sec, int64_t)

#define MTI(K, ...) typedef internal::_meter_impl<clk, __VA_ARGS__> K; COPY(K) \
    X double cy_obs_mean__##K(int, const K* r) { return r->mean(); } X void cy_obs_mark__##K(int64_t v, K* r) { r->mark(v); }
#define MRT(K, W) X double cy_obs_rate_##W##__##K(int, K* r) { return r->get_rate<time::seconds(W)>(); }
MTI(meter_clk, period(1_sec), period(10_sec), period(1_min)) MRT(meter_clk, 10) MRT(meter_clk, 60)
#define MTP(K, ...) typedef meter<__VA_ARGS__> K; COPY(K) SNAP(K, meter_snapshot) X double cy_obs_mean__##K(int, const K* r) { return r->mean(); } X void cy_obs_mark__##K(int64_t v, K* r) { r->mark(v); }
MTP(meter_0, 1_sec) MTP(meter_2, 5_sec, 10_sec, 1_min)

typedef simple_reservoir<double, 4> simple_d; TWO(simple_d)
typedef simple_reservoir<int32_t, 3> simple_i; TWO(simple_i)
typedef sliding_window_reservoir<int64_t, 4, clk> sliding_clk; TWO(sliding_clk)
typedef sliding_window_reservoir<double, 3> sliding_d; TWO(sliding_d)
#define HIS(K, T, R) typedef histogram<T, R> K; COPY(K) CSNAP(K, histogram_snapshot) X void cy_obs_update__##K(T v, K* r) { r->update(v); } X uint64_t cy_obs_count__##K(int, const K* r) { return r->count(); }
typedef uniform_reservoir<double, 8> uniform_d;
HIS(histo_s, double, simple_d) HIS(histo_u, double, uniform_d) HIS(histo_w, int64_t, sliding_clk)

#define GAU(K, G, T) typedef gauge<G> K; COPY(K) MOVE(K) CSNAP(K, average_value_snapshot) X T cy_obs_get__##K(int, const K* r) { return r->K::get(); } X T cy_obs_getn__##K(int, K* r) { return r->K::get(); }
GAU(gauge_d, double, double) GAU(gauge_i, int32_t, int32_t)
GAU(gauge_ref, double&, double) GAU(gauge_ptr, int64_t*, int64_t)
typedef std::function<double()> fnd;
GAU(gauge_fn, fnd, double)
