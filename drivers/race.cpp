// C14, C27: operations on one object that several threads may use at once; arg0 is the object
#include "common.hpp"
#include <cxxmetrics/counter.hpp>
#include <cxxmetrics/gauge.hpp>
#include <cxxmetrics/ewma.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
#define SNAP(N, T) X void cc_##N##__snapshot(T* m, void* o) { typedef decltype(m->snapshot()) S; new (o) S(m->snapshot()); } \
    X void ob_##N##__snapshot(const T* m, void* o) { typedef decltype(m->snapshot()) S; new (o) S(m->snapshot()); }

typedef counter<int64_t> cnt;
X void cc_counter__incr(cnt* m, int64_t v) { m->incr(v); }
X void cc_counter__pre(cnt* m) { ++*m; }
X void cc_counter__post(cnt* m) { (*m)++; }
X void cc_counter__set(cnt* m, int64_t v) { *m = v; }
X void cc_counter__sub(cnt* m, int64_t v) { *m -= v; }
X int64_t ob_counter__value(const cnt* m) { return m->value(); }
SNAP(counter, cnt)

typedef ewma<time::seconds(10), time::seconds(1), double> avg;
X void cc_ewma__mark(avg* m, double v) { m->mark(v); }
X double cc_ewma__rate(avg* m) { return m->rate(); }
X double ob_ewma__rate(const avg* m) { return m->rate(); }
SNAP(ewma, avg)
typedef ewma<time::seconds(10), time::seconds(1), int64_t> avgi;
X void cc_ewmai__mark(avgi* m, int64_t v) { m->mark(v); }
X int64_t cc_ewmai__rate(avgi* m) { return m->rate(); }
X int64_t ob_ewmai__rate(const avgi* m) { return m->rate(); }

typedef meter<time::seconds(1), time::seconds(60), time::seconds(300)> met;
X void cc_meter__mark(met* m, int64_t v) { m->mark(v); }
X double cc_meter__rate(met* m) { return m->rate<time::seconds(60)>().rate; }
X double ob_meter__rate(const met* m) { return m->rate<time::seconds(300)>().rate; }
X double ob_meter__mean(const met* m) { return m->mean(); }
SNAP(meter, met)

typedef gauge<double, gauges::aggregation_sum> gau;
X void cc_gauge__set(gau* m, double v) { m->set(v); }
X void cc_gauge__assign(gau* m, double v) { *m = v; }
X double cc_gauge__get(gau* m) { return m->gau::get(); }
X double ob_gauge__get(const gau* m) { return m->gau::get(); }
X void ob_gauge__snapshot(const gau* m, void* o) { typedef decltype(m->snapshot()) S; new (o) S(m->snapshot()); }
typedef gauge<std::function<double()>, gauges::aggregation_sum> gauf;
X double cc_gaugef__get(gauf* m) { return m->gauf::get(); }
X double ob_gaugef__get(const gauf* m) { return m->gauf::get(); }
X void ob_gaugef__snapshot(const gauf* m, void* o) { typedef decltype(m->snapshot()) S; new (o) S(m->snapshot()); }
typedef gauge<double&, gauges::aggregation_sum> gaur;
X double ob_gauger__get(const gaur* m) { return m->gaur::get(); }

typedef simple_reservoir<double, 64> res;
X void cc_simple__update(res* m, double v) { m->update(v); }
X void ob_simple__snapshot(const res* m, void* o) { new (o) reservoir_snapshot(m->snapshot()); }
typedef uniform_reservoir<double, 64> ures;
X void cc_uniform__update(ures* m, double v) { m->update(v); }
X void ob_uniform__snapshot(const ures* m, void* o) { new (o) reservoir_snapshot(m->snapshot()); }
typedef sliding_window_reservoir<double, 64> sres;
X void cc_sliding__update(sres* m, double v) { m->update(v); }
X void ob_sliding__snapshot(const sres* m, void* o) { new (o) reservoir_snapshot(m->snapshot()); }
typedef internal::ringbuf<double, 5> ring;
X void cc_ring__push(ring* m, double v) { m->push(v); }
X size_t ob_ring__size(const ring* m) { return m->size(); }
X void ring_probe(double);
X void ob_ring__iterate(const ring* m) { for (auto it = m->begin(); it != m->end(); ++it) ring_probe(*it); }

typedef histogram<double, res> his;
X void cc_histogram__update(his* m, double v) { m->update(v); }
X uint64_t ob_histogram__count(const his* m) { return m->count(); }
X void ob_histogram__snapshot(const his* m, void* o) { new (o) histogram_snapshot(m->snapshot()); }
typedef simple_reservoir<std::chrono::steady_clock::duration, 64> tres;
typedef timer<time::seconds(1), std::chrono::steady_clock, tres, time::seconds(60)> tim;
X void cc_timer__update(tim* m, std::chrono::steady_clock::duration v) { m->update(v); }
X void ob_timer__snapshot(const tim* m, void* o) { new (o) timer_snapshot(m->snapshot()); }
