// C34: what a metric that is asked for for the first time is made of, existing ones, refusals
#include "common.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
typedef metrics_registry<> reg;
typedef const metric_path& path;
typedef const tag_collection& tags;
typedef counter<int64_t> cnt;
typedef simple_reservoir<int64_t, 64> res;
typedef histogram<int64_t, res> his;
typedef uniform_reservoir<int64_t, 64> ures;
typedef simple_reservoir<std::chrono::steady_clock::duration, 64> tres;
typedef sliding_window_reservoir<int64_t, 64> wres;
typedef timer<time::seconds(1), std::chrono::steady_clock, tres, time::seconds(60)> tim;
typedef std::function<double()> fun;

// arg0 storage of the result, arg1 registry, arg2 path, arg3 tags, arg4 what the metric is to be made of
#define IN(N, T, ...) X void in_##N(void* o, reg* r, path p, tags t, T* v) { auto m = r->__VA_ARGS__(p, std::move(*v), t); new (o) decltype(m)(std::move(m)); }
IN(counter, int64_t, counter<int64_t>)
IN(counteri, int32_t, counter<int32_t>)
IN(gauge, double, gauge<double, gauges::aggregation_sum>)
IN(gaugea, int64_t, gauge<int64_t>)
IN(gaugef, fun, gauge<fun, gauges::aggregation_sum>)
IN(histogram, res, histogram<res>)
IN(histogramu, ures, histogram<ures>)
IN(timer, tres, timer<time::seconds(1), std::chrono::steady_clock, tres, time::seconds(60)>)
#define I0(N, ...) X void in0_##N(void* o, reg* r, path p, tags t) { auto m = r->__VA_ARGS__(p, t); new (o) decltype(m)(std::move(m)); }
I0(counter, counter<int64_t>)
I0(counteri, counter<int32_t>)
// a metric over a reservoir: arg0 where it is made, arg1 the reservoir
X void hs_histogram(his* o, res* v) { new (o) his(std::move(*v)); }
X void hs_histogramu(histogram<int64_t, ures>* o, ures* v) { new (o) histogram<int64_t, ures>(std::move(*v)); }
X void hs_histogramw(histogram<int64_t, wres>* o, wres* v) { new (o) histogram<int64_t, wres>(std::move(*v)); }
X void hs_timer(tim* o, tres* v) { new (o) tim(std::move(*v)); }
// existing metrics: arg0 registry, arg1 path, arg2 tags, arg3 the metric
X bool ix_counter(reg* r, path p, tags t, std::shared_ptr<cnt>* m) { return r->register_existing<cnt>(p, *m, t); }
X bool ix_histogram(reg* r, path p, tags t, std::shared_ptr<his>* m) { return r->register_existing<his>(p, *m, t); }
// what a refusal says
X void mm_existing(std::string* o, const metric_type_mismatch* e) { new (o) std::string(e->existing_metric_type()); }
X void mm_desired(std::string* o, const metric_type_mismatch* e) { new (o) std::string(e->desired_metric_type()); }
// type names
#define TY(N, ...) typedef __VA_ARGS__ ty_##N##_t; X void ty_##N(std::string* o, const ty_##N##_t* m) { new (o) std::string(m->ty_##N##_t::metric_type()); }
TY(counter, cnt)
TY(counteri, counter<int32_t>)
TY(gauge, gauge<double, gauges::aggregation_sum>)
TY(gaugea, gauge<int64_t>)
TY(gaugef, gauge<fun, gauges::aggregation_sum>)
TY(histogram, his)
TY(histogramu, histogram<int64_t, ures>)
TY(timer, timer<time::seconds(1), std::chrono::steady_clock, tres, time::seconds(60)>)
