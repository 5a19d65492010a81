// C14: observations of metrics, snapshots and options; arg0 is the observed object
#include "race.cpp"
#include <cxxmetrics/snapshots.hpp>
#include <cxxmetrics/publisher.hpp>
#include <cxxmetrics/metrics_registry.hpp>
#define OBS(N, T, R, E) X R ob_##N(const T* m) { return E; }
#define OBO(N, T, R, E) X void ob_##N(const T* m, void* o) { new (o) R(E); }
OBO(gau__value, gau, metric_value, m->snapshot().value())
OBS(avg__op, avg, double, m->rate())
OBS(cnt__conv, cnt, int64_t, static_cast<int64_t>(*m))
X void ob_met__rates(const met* m, void* o) { new (o) meter_snapshot(m->snapshot()); }
OBS(met__r1, met, double, m->rate<time::seconds(60)>().rate)
OBS(his__conv, his, uint64_t, m->count())
// snapshots
typedef reservoir_snapshot rs;
OBO(rs__value, rs, metric_value, m->value<50_p>())
OBO(rs__valueq, rs, metric_value, m->value<99.9_p>())
OBO(rs__mean, rs, metric_value, m->mean())
OBO(rs__min, rs, metric_value, m->min())
OBO(rs__max, rs, metric_value, m->max())
OBS(rs__size, rs, size_t, m->size())
struct sampler { void operator()(const metric_value& v, const quantile& q) const; };
X void ob_rs__sample(const rs* m, size_t n, sampler* s) { m->sample(n, *s); }
OBS(hs__count, histogram_snapshot, uint64_t, m->count())
X void ob_hs__merged(const histogram_snapshot* m, histogram_snapshot* other) { other->merge(*m); }
OBO(cs__value, cumulative_value_snapshot, metric_value, m->value())
X void ob_cs__merged(const cumulative_value_snapshot* m, cumulative_value_snapshot* other) { other->merge(*m); }
OBO(as__value, average_value_snapshot, metric_value, m->value())
X void ob_as__merged(const average_value_snapshot* m, average_value_snapshot* other) { other->merge(*m); }
OBS(vs__eq, value_snapshot, bool, *m == *m)
X bool ob_vs__equal(const value_snapshot* m, const value_snapshot* b) { return *m == *b; }
X bool ob_vs__unequal(const value_snapshot* m, const metric_value* b) { return *m != *b; }
X void rate_probe(const std::chrono::steady_clock::duration&, const metric_value&);
X void ob_ms__rates(const meter_snapshot* m) { for (auto& p : *m) rate_probe(p.first, p.second); }
X void ob_ms__merged(const meter_snapshot* m, meter_snapshot* other) { other->merge(*m); }
OBS(ts__rate, timer_snapshot, const void*, &m->rate())
X void ob_ts__merged(const timer_snapshot* m, timer_snapshot* other) { other->merge(*m); }
// metric values
typedef metric_value mval;
OBS(mv__i64, mval, int64_t, static_cast<int64_t>(*m))
OBS(mv__f64, mval, double, static_cast<double>(*m))
OBO(mv__str, mval, std::string, static_cast<std::string>(*m))
OBS(mv__dur, mval, int64_t, static_cast<std::chrono::nanoseconds>(*m).count())
OBO(mv__copy, mval, mval, *m)
OBO(mv__neg, mval, mval, -*m)
X void ob_mv__add(const mval* m, const mval* b, void* o) { new (o) mval(*m + *b); }
X void ob_mv__radd(const mval* m, const mval* b, void* o) { new (o) mval(*b + *m); }
X void ob_mv__div(const mval* m, const mval* b, void* o) { new (o) mval(*m / *b); }
X void ob_mv__rdiv(const mval* m, const mval* b, void* o) { new (o) mval(*b / *m); }
X void ob_mv__mul(const mval* m, const mval* b, void* o) { new (o) mval(*m * *b); }
X void ob_mv__sub(const mval* m, const mval* b, void* o) { new (o) mval(*m - *b); }
X void ob_mv__paddeq(const mval* m, mval* b) { *b += *m; }
X bool ob_mv__eq(const mval* m, const mval* b) { return *m == *b; }
X bool ob_mv__lt(const mval* m, const mval* b) { return *m < *b; }
X bool ob_mv__gt(const mval* m, const mval* b) { return *b < *m; }
// tags, paths
X size_t ob_tg__hash(const tag_collection* m) { return std::hash<tag_collection>()(*m); }
X bool ob_tg__eq(const tag_collection* m, const tag_collection* b) { return *m == *b; }
X void tag_probe(const std::string&, const metric_value&);
X void ob_tg__iterate(const tag_collection* m) { for (auto& p : *m) tag_probe(p.first, p.second); }
X size_t ob_mp__hash(const metric_path* m) { return std::hash<metric_path>()(*m); }
X bool ob_mp__eq(const metric_path* m, const metric_path* b) { return *m == *b; }
X void ob_mp__join(const metric_path* m, void* o) { new (o) std::string(m->join("/")); }
X void ob_mp__slash(const metric_path* m, const metric_path* b, void* o) { new (o) metric_path(*m / *b); }
X void elem_probe(const std::string&);
X void ob_mp__iterate(const metric_path* m) { for (auto& p : *m) elem_probe(p); }
// options
OBS(vo__include, value_publish_options, double, m->scale().factor())
OBS(mo__mean, meter_publish_options, bool, m->include_mean())
OBS(to__rates, timer_publish_options, bool, m->include_rates())
OBS(to__count, timer_publish_options, bool, m->include_count())
OBS(mo__scale, meter_publish_options, double, m->scale().factor())
OBS(ho__count, histogram_publish_options, bool, m->include_count())
OBS(ho__scale, histogram_publish_options, double, m->scale().factor())
OBS(ho__quant, histogram_publish_options, const void*, m->quantiles().get())
