// C10-C13, C19, C20, C27, C28: the registry
#include "common.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
typedef metrics_registry<> reg;
typedef const metric_path& path;
typedef const tag_collection& tags;
typedef counter<int64_t> cnt;
typedef ewma<time::seconds(10), time::seconds(1), double> avg;
typedef gauge<double, gauges::aggregation_sum> gau;
typedef simple_reservoir<int64_t, 64> res;
typedef histogram<int64_t, res> his;
typedef meter<time::seconds(1), time::seconds(60), time::seconds(300)> met;
typedef simple_reservoir<std::chrono::steady_clock::duration, 64> tres;
typedef timer<time::seconds(1), std::chrono::steady_clock, tres, time::seconds(60)> tim;

// getting metrics: arg0 storage of the result, arg1 registry, arg2 path, arg3 tags
X void rg_counter(void* o, reg* r, path p, tags t) { new (o) std::shared_ptr<cnt>(r->counter<int64_t>(p, 7, t)); }
X void rg_counter0(void* o, reg* r, path p, tags t) { new (o) std::shared_ptr<cnt>(r->counter<int64_t>(p, t)); }
X void rg_ewma(void* o, reg* r, path p, tags t) { new (o) std::shared_ptr<avg>(r->ewma<time::seconds(10), time::seconds(1), double>(p, t)); }
X void rg_gauge(void* o, reg* r, path p, tags t) { new (o) std::shared_ptr<gau>(r->gauge<double, gauges::aggregation_sum>(p, 1.5, t)); }
X void rg_histogram(void* o, reg* r, path p, tags t) { new (o) std::shared_ptr<his>(r->histogram<res>(p, res(), t)); }
X void rg_meter(void* o, reg* r, path p, tags t) { new (o) std::shared_ptr<met>(r->meter<time::seconds(1), time::seconds(60), time::seconds(300)>(p, t)); }
X void rg_timer(void* o, reg* r, path p, tags t) { new (o) std::shared_ptr<tim>(r->timer<time::seconds(1), std::chrono::steady_clock, tres, time::seconds(60)>(p, tres(), t)); }
X bool rx_existing(reg* r, path p, tags t, std::shared_ptr<cnt>* m) { return r->register_existing<cnt>(p, *m, t); }
X bool rx_existingh(reg* r, path p, tags t, std::shared_ptr<his>* m) { return r->register_existing<his>(p, *m, t); }
// type names of metrics
typedef gauge<double, gauges::aggregation_average> gaa;
#define TY(N, ...) typedef __VA_ARGS__ ty_##N##_t; X void ty_##N(std::string* o, const ty_##N##_t* m) { new (o) std::string(m->ty_##N##_t::metric_type()); }
TY(counter, cnt) TY(ewma, avg) TY(gauge, gau) TY(histogram, his) TY(meter, met) TY(timer, tim)
TY(counteri, counter<int>) TY(gaugea, gaa)
TY(ewmaw, ewma<time::seconds(20), time::seconds(1), double>)
TY(ewmai, ewma<time::seconds(10), time::seconds(2), double>)
TY(ewmat, ewma<time::seconds(10), time::seconds(1), float>)
TY(gaugef, gauge<float, gauges::aggregation_sum>)
TY(gaugefn, gauge<std::function<double()>, gauges::aggregation_sum>)
TY(histu, histogram<int64_t, uniform_reservoir<int64_t, 64>>)
TY(hist128, histogram<int64_t, simple_reservoir<int64_t, 128>>)
TY(meteri, meter<time::seconds(2), time::seconds(60), time::seconds(300)>)
TY(meterw, meter<time::seconds(1), time::seconds(60)>)
TY(timerw, timer<time::seconds(1), std::chrono::steady_clock, tres, time::seconds(300)>)
TY(timeri, timer<time::seconds(2), std::chrono::steady_clock, tres, time::seconds(60)>)
TY(timerr, timer<time::seconds(1), std::chrono::steady_clock, uniform_reservoir<std::chrono::steady_clock::duration, 64>, time::seconds(60)>)
// options
X const publish_options* po_get(const reg* r) { return &r->publish_options(); }
X void po_set(reg* r, publish_options* o) { r->publish_options(std::move(*o)); }
X void po_setm(reg* r, path p, publish_options* o) { r->publish_options(p, std::move(*o)); }
struct pub : metrics_publisher<default_repository> {
    using metrics_publisher<default_repository>::metrics_publisher;
    const publish_options& eff(basic_registered_metric& m) const { return effective_options(m); }
    template<typename H> void one(path p, H h) const { visit_one(p, h); }
    template<typename H> void all(H h) const { visit_all(h); }
    bool has(path p) const { return has_metric(p); }
    bool hasd(path p) const { return has_data_for<publish_options>(p); }
    publish_options* data(path p) { return get_data_for<publish_options>(p); }
    std::string ty(path p) const { return metric_type(p); }
};
X const publish_options* po_eff(const pub* p, basic_registered_metric* m) { return &p->eff(*m); }
X void probe_reg(const metric_path*, basic_registered_metric*);
X void pu_one(const pub* q, path p) { q->one(p, [](path p, basic_registered_metric& m) { probe_reg(&p, &m); }); }
X void pu_all(const pub* q) { q->all([](path p, basic_registered_metric& m) { probe_reg(&p, &m); }); }
X bool pu_has(const pub* q, path p) { return q->has(p); }
X bool pu_hasd(const pub* q, path p) { return q->hasd(p); }
X publish_options* pu_data(pub* q, path p) { return q->data(p); }
X void pu_ty(std::string* o, const pub* q, path p) { new (o) std::string(q->ty(p)); }
// visiting
X void probe_snap(const tag_collection*, int, const void*);
X void probe_agg(int, const void*);
X void vi_reg(reg* r) { r->visit_registered_metrics([](const metric_path& p, basic_registered_metric& m) { probe_reg(&p, &m); }); }
struct tagh {
    void operator()(tags t, const cumulative_value_snapshot& s) const { probe_snap(&t, 1, &s); }
    void operator()(tags t, const average_value_snapshot& s) const { probe_snap(&t, 2, &s); }
    void operator()(tags t, const meter_snapshot& s) const { probe_snap(&t, 3, &s); }
    void operator()(tags t, const histogram_snapshot& s) const { probe_snap(&t, 4, &s); }
    void operator()(tags t, const timer_snapshot& s) const { probe_snap(&t, 5, &s); }
};
struct aggh {
    void operator()(const cumulative_value_snapshot& s) const { probe_agg(1, &s); }
    void operator()(const average_value_snapshot& s) const { probe_agg(2, &s); }
    void operator()(const meter_snapshot& s) const { probe_agg(3, &s); }
    void operator()(const histogram_snapshot& s) const { probe_agg(4, &s); }
    void operator()(const timer_snapshot& s) const { probe_agg(5, &s); }
};
X void vi_each(basic_registered_metric* m) { m->visit(tagh()); }
X void vi_agg(basic_registered_metric* m) { m->aggregate(aggh()); }
// handlers that take base classes, and ones that take less than everything
struct agg2 {
    void operator()(const value_snapshot& s) const { probe_agg(6, &s); }
    void operator()(const reservoir_snapshot& s) const { probe_agg(7, &s); }
};
struct agg3 {
    void operator()(const average_value_snapshot& s) const { probe_agg(2, &s); }
    void operator()(const histogram_snapshot& s) const { probe_agg(4, &s); }
};
struct agg4 {
    void operator()(const meter_snapshot& s) const { probe_agg(3, &s); }
    void operator()(const cumulative_value_snapshot& s) const { probe_agg(1, &s); }
};
struct agg5 {
    template<typename T> void operator()(const T& s) const { probe_agg(std::is_same<T, cumulative_value_snapshot>::value ? 1 : std::is_same<T, average_value_snapshot>::value ? 2 :
        std::is_same<T, meter_snapshot>::value ? 3 : std::is_same<T, histogram_snapshot>::value ? 4 : std::is_same<T, timer_snapshot>::value ? 5 : 0, &s); }
};
X void vi_agg2(basic_registered_metric* m) { m->aggregate(agg2()); }
X void vi_agg3(basic_registered_metric* m) { m->aggregate(agg3()); }
X void vi_agg4(basic_registered_metric* m) { m->aggregate(agg4()); }
X void vi_agg5(basic_registered_metric* m) { m->aggregate(agg5()); }
