// C01: counters
#include "common.hpp"
#include <cxxmetrics/counter.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/meter.hpp>
using cxxmetrics::counter;
typedef unsigned long long ull_t;

// values: everything a counter reports follows from the deltas
#define CNT(name, T) \
    X T drv_incr_##name(counter<T>* c, T by) { return c->incr(by) - c->value(); }                          X T ref_incr_##name(counter<T>* c, T by) { c->incr(by); return T(c->value() - c->value()); } \
    X T drv_ret_##name(counter<T>* c, T by) { T b = c->value(); T r = c->incr(by); return r - b; }           X T ref_ret_##name(counter<T>* c, T by) { c->incr(by); return by; } \
    X T drv_eff_##name(counter<T>* c, T by) { T b = c->value(); c->incr(by); return c->value() - b; }        X T ref_eff_##name(counter<T>* c, T by) { c->incr(by); return by; } \
    X T drv_pre_##name(counter<T>* c) { T b = c->value(); ++*c; return c->value() - b; }                     X T ref_pre_##name(counter<T>* c) { c->incr(1); return 1; } \
    X T drv_post_##name(counter<T>* c) { T b = c->value(); T r = (*c)++; return r - b; }                     X T ref_post_##name(counter<T>* c) { c->incr(1); return 0; } \
    X T drv_postv_##name(counter<T>* c) { T b = c->value(); (*c)++; return c->value() - b; }                 X T ref_postv_##name(counter<T>* c) { c->incr(1); return 1; } \
    X T drv_dec_##name(counter<T>* c) { T b = c->value(); --*c; return b - c->value(); }                     X T ref_dec_##name(counter<T>* c) { c->incr(T(-1)); return 1; } \
    X T drv_pluseq_##name(counter<T>* c, T by) { T b = c->value(); *c += by; return c->value() - b; }        X T ref_pluseq_##name(counter<T>* c, T by) { c->incr(by); return by; } \
    X T drv_minuseq_##name(counter<T>* c, T by) { T b = c->value(); *c -= by; return b - c->value(); }       X T ref_minuseq_##name(counter<T>* c, T by) { c->incr(T(-by)); return by; } \
    X T drv_set_##name(counter<T>* c, T v) { *c = v; return c->value(); }                                    X T ref_set_##name(counter<T>* c, T v) { *c = v; return v; } \
    X T drv_cast_##name(counter<T>* c) { return T(*c); }                                                     X T ref_cast_##name(counter<T>* c) { return c->value(); } \
    X T drv_ini_##name(T v) { counter<T> c(v); return c.value(); }                                           X T ref_ini_##name(T v) { return v; } \
    X T drv_def_##name() { counter<T> c; return c.value(); }                                                 X T ref_def_##name() { return 0; } \
    X const void* drv_self_##name(counter<T>* c, T v) { return (&++*c == c && &--*c == c && &(*c += v) == c && &(*c -= v) == c && &(*c = v) == c) ? c : nullptr; } \
    X const void* ref_self_##name(counter<T>* c, T v) { *c = v; return c; } \
    X T drv_snap_##name(counter<T>* c) { return c->snapshot().value(); }                                     X T ref_snap_##name(counter<T>* c) { return c->value(); }
CNT(i64, int64_t) CNT(i32, int32_t) CNT(u64, uint64_t) CNT(u32, uint32_t) CNT(i16, int16_t)

// effects: one atomic read-modify-write per operation
#define EFF(name, T) \
    X T rd_##name(const counter<T>* c) { return c->value(); } X T rmw_incr_##name(counter<T>* c, T by) { return c->incr(by); } \
    X void rmw_pre_##name(counter<T>* c) { ++*c; } \
    X T rmw_post_##name(counter<T>* c) { return (*c)++; } \
    X void rmw_dec_##name(counter<T>* c) { --*c; } \
    X void rmw_pluseq_##name(counter<T>* c, T by) { *c += by; } \
    X void rmw_minuseq_##name(counter<T>* c, T by) { *c -= by; }
EFF(i64, int64_t) EFF(i32, int32_t) EFF(u64, uint64_t)

// the counts kept by other metrics
struct clk { std::chrono::steady_clock::time_point operator()() const noexcept; };
struct sink { using value_type = long; void update(const long& v) noexcept; cxxmetrics::reservoir_snapshot snapshot() const noexcept; };
typedef cxxmetrics::histogram<long, sink> hist_t;
X void rmw_hist(hist_t* h, long v) { h->update(v); }
X uint64_t rd_hist(const hist_t* h) { return h->count(); }
using namespace cxxmetrics_literals;
typedef cxxmetrics::meter<1_sec, 1_min, 5_min> meter_t;
X void rmw_mark_meter(meter_t* m, int64_t by) { m->mark(by); }
X double rd_meter(const meter_t* m) { return m->mean(); }
typedef cxxmetrics::meter<1_sec> bare_t;
X void rmw_mark_bare(bare_t* m, int64_t by) { m->mark(by); }
X double rd_bare(const bare_t* m) { return m->mean(); }
