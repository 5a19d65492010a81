// C04: snapshots that are handed on; arg0 is the target, arg1 the source
#include "common.hpp"
#include <cxxmetrics/snapshots.hpp>
using namespace cxxmetrics;
#define MOVE(K, S) typedef S K; \
    X void cy_move__##K(K* r, K* o) { new (r) K(std::move(*o)); } \
    X K* cy_massign__##K(K* r, K* o) { return &(*r = std::move(*o)); }
#define VALUE(K) X void cy_obs_value__##K(metric_value* v, const K* r) { new (v) metric_value(r->value()); }
// the number of samples behind an average counts when another is merged into it
#define MERGE(K) X void cy_obs_merge__##K(const K* o, K* r) { r->merge(*o); }
#define RATES(K) X void cy_obs_rates__##K(int, const K* r) { for (const auto& x : *r) probe_rate(&x); }
#define SAMPLES(K) X std::size_t cy_obs_size__##K(int, const K* r) { return r->size(); } \
    X void cy_obs_min__##K(metric_value* v, const K* r) { new (v) metric_value(r->min()); }
#define COUNT(K) X uint64_t cy_obs_count__##K(int, const K* r) { return r->count(); }
X void probe_rate(const void*);
MOVE(cumulative, cumulative_value_snapshot) VALUE(cumulative)
MOVE(average, average_value_snapshot) VALUE(average) MERGE(average)
MOVE(rates, meter_snapshot) VALUE(rates) MERGE(rates) RATES(rates)
MOVE(samples, reservoir_snapshot) SAMPLES(samples)
MOVE(distribution, histogram_snapshot) SAMPLES(distribution) COUNT(distribution)
MOVE(timing, timer_snapshot) SAMPLES(timing) COUNT(timing)
X void cy_obs_value__timing(metric_value* v, const timing* r) { new (v) metric_value(r->rate().value()); }
X void cy_obs_rates__timing(int, const timing* r) { for (const auto& x : r->rate()) probe_rate(&x); }
X void cy_obs_merge__timing(const meter_snapshot* o, timing* r) { const_cast<meter_snapshot&>(r->rate()).merge(*o); }
